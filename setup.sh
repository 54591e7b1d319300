#!/bin/bash
# Builds the harness crates from /repo's working tree (every check does this again, incrementally).
. "$(dirname "$0")/env.sh"
cd "$(dirname "$0")" || exit 1
for c in harness proverbin halo small; do (cd $c && cargo build --offline) || exit 1; done
