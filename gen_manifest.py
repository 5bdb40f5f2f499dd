#!/usr/bin/env python3
"""writes MANIFEST.json from props.py"""
import json, os
from props import PROPS
HERE = os.path.dirname(os.path.abspath(__file__))
NOTE = {
 "C02": "The random fills are proved against assumed contracts of rand's samplers (a sample lies in its support).",
 "C13": "exp is an uninterpreted function with three assumed facts (exp of a non-positive number lies in [0,1], exp of zero is 1, exp is non-decreasing), which the check tries on all 2^32 floats; the rounding facts behind the order and the sum are proved in Rocq with Flocq on every run (contracts/float_facts.v).",
 "C25": "serde/bincode round trips are assumed for derived implementations; the extractor reads from the source whether they are derived.",
 "C26": "serde/bincode round trips are assumed for derived implementations; that a file reads back what was written is the file system's.",
 "C27": "That decoding arbitrary bytes returns an error rather than panicking is bincode's (assumed, exercised by the harness); what the crate does with any decoded value is proved.",
}
checks = []
for p, d in PROPS.items():
    checks.append(dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"python3 check.py {p} --thorough", evidence_file=f"evidence/{p}.json",
        technique="deductive verification: Verus contracts attached to the functions extracted from /repo on every run; bounded cross-check on the real crate searches failing inputs",
        level="proof",
        level_note="Every obligation of the functions the property depends on is discharged for all inputs and iterations; float operations are uninterpreted, usize is 64 bit, dependencies have assumed contracts (listed in the evidence). Functions the verifier cannot take after a change fall back to the bounded harness, labelled bounded in the evidence. " + NOTE.get(p, ""),
        theorems=d["own"] + d["lemmas"]))
m = dict(version=1, setup_cmd="bash setup.sh",
    hooks=dict(guard="verif_hooks", enable="RUSTFLAGS=\"--cfg verif_hooks\"", source_commits=["c1ce530"]),
    checks=checks, not_applicable=[],
    notes="See DESIGN.md. known_findings.txt lists the repaired defects.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
