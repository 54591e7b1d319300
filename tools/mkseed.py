#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in tools/seeds/*.py (each calls seed(...))."""
import glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIBS = {
    "vm": 'ckb_bf_vm = { path = "@REPO@/ckb_bf_vm" }', "base": 'ckb_bf_base = { path = "@REPO@/ckb_bf_base" }',
    "proofs": 'halo2_proofs = { path = "@REPO@/halo2_proofs" }', "curves": 'halo2curves = { path = "@REPO@/halo2curves" }',
    "gadgets": 'halo2_gadgets = { path = "@REPO@/halo2_gadgets" }', "poseidon": 'poseidon = { path = "@REPO@/poseidon" }',
    "rand": 'rand = { version = "0.8.0", features = ["std"] }', "xor": 'rand_xorshift = "0.3"', "rand_core": 'rand_core = { version = "0.6", default-features = false }',
    "ff": 'ff = "0.12"', "group": 'group = "0.12"',
}
DEMO = """#!/bin/bash
# Builds a small program against the repository in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir "$d/src"; cp "$here/main.rs" "$d/src/"; cp "$here/Cargo.lock" "$d/"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$d/Cargo.toml"
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.70.0
P=/root/.rustup/toolchains/nightly-2023-02-17-x86_64-unknown-linux-gnu/bin
export RUSTC=$P/rustc RUSTDOC=$P/rustdoc RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
unset RUSTFLAGS
cd "$d" && cargo build --offline -q 2>"$d/log" || { cat "$d/log"; echo "the demonstration does not build"; exit 3; }
timeout 200 "$d/target/debug/demo"
"""


def seed(id, prop, needs, breaks, edits, main, deps=("vm", "base", "proofs", "curves"), lock="harness", demo=None, files=()):
    d = os.path.join(V, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t = tempfile.mkdtemp()
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", t + "/w", "HEAD"], check=True)
        w = t + "/w"
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", w, "diff"], stdout=subprocess.PIPE, check=True).stdout
        open(d + "/patch.diff", "wb").write(diff)
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", t + "/w"])
        shutil.rmtree(t, ignore_errors=True)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    if demo is not None:
        open(d + "/demo.sh", "w").write(demo)
        for n, s in files:
            open(os.path.join(d, n), "w").write(s)
        return
    open(d + "/demo.sh", "w").write(DEMO)
    open(d + "/main.rs", "w").write(main)
    shutil.copy(os.path.join(V, lock, "Cargo.lock"), d + "/Cargo.lock")
    open(d + "/Cargo.toml.in", "w").write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\n' +
        "\n".join(LIBS[x] for x in deps) + "\n\n[profile.dev]\nopt-level = 2\ndebug = 0\nincremental = false\n")


if __name__ == "__main__":
    only = sys.argv[1:]
    real = seed
    def seed(id, *a, **k):
        if not only or id in only:
            real(id, *a, **k)
            print("wrote", id)
    for f in sorted(glob.glob(os.path.join(V, "tools", "seeds", "*.py"))):
        exec(open(f).read(), dict(seed=seed))
