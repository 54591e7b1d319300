#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below."""
import json, os
TLC = "TLA+ specification model-checked with TLC; "
N = {
 "C01": ("replay of every enumerated source text into the real compiler", "Exhaustive for texts up to the stated bounds (all 256 bytes to length 2, operations to 5, bracket shapes to 12), sampled beyond."),
 "C02": ("replay of every enumerated run into the real interpreter", "Exhaustive over programs and inputs within small bounds and several cell widths; curated and seeded long runs."),
 "C03": ("recorded tables of every enumerated run compared with the specification's", "As C02, on all tables."),
 "C04": ("real witness assignment evaluated on the real constraint system for every enumerated run", "Exhaustive over runs within bounds; challenges random."),
 "C05": ("adversary model: forged traces replayed into the real constraint system, later-phase cells solved for", "Every single dishonest move on all programs within bounds (two moves in the thorough tier); assumes Schwartz-Zippel and the soundness of the proof system."),
 "C06": ("adversary model: forged memory tables replayed into the real constraint system", "As C05."),
 "C07": ("adversary model: forged programs and instruction tables replayed into the real constraint system", "As C05."),
 "C08": ("adversary model: forged inputs and outputs replayed into the real constraint system", "As C05."),
 "C09": ("runs enumerated by the machine specification through the real prover binary and on-chain verifier", "A selection of runs, real proofs; the CKB syscalls are stood in for by a host library."),
 "C10": ("edit model of transactions replayed through the real on-chain verifier entry point", "All single edits of the model on several honest transactions; authentic key and parameters assumed."),
}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "manifest_more.py")).read()) if os.path.exists("manifest_more.py") else None
m = dict(version=1, setup_cmd="bash setup.sh",
         checks=[dict(property=k, quick_cmd="VERIF_TIER=quick ./check " + k, thorough_cmd="VERIF_TIER=thorough ./check " + k,
                      technique=TLC + v[0], level="model_checking", level_note=v[1]) for k, v in sorted(N.items())],
         not_applicable=[], notes="No hooks in /repo; see DESIGN.md. Findings repaired in /repo are listed in KNOWN_FINDINGS.txt.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
