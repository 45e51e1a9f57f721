#!/usr/bin/env python3
"""Write MANIFEST.json from the property table."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from proptable import PROPS, NOT_APPLICABLE, NOTES  # noqa: E402
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in PROPS:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check has been built for it yet")})
        continue
    s = PROPS[i]
    tech = []
    if "mods" in s:
        tech.append("abstract interpretation of MIR against contracts (relational linear-inequality domain, heap/ownership typestate, loop invariants by widening)")
    if "witness" in s:
        tech.append("compile-fail witnesses with compiling twins, decided by the type checker")
    note = s.get("note") or ("Every path of every listed entry point is interpreted over generic types and arbitrary inputs; all obligations must follow from the abstract state. "
                            "Trusts the MIR rustc produces, the analyser and its summaries of core/alloc.")
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": "; ".join(tech), "level": "other", "level_note": note})
m = {"version": 1, "setup_cmd": "cd checker && CARGO_TARGET_DIR=$PWD/target cargo +nightly build --release --offline --locked", "checks": checks, "not_applicable": na, "notes": NOTES}
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
