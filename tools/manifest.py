#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification: weakest-precondition style obligations over go/ssa of the real code, discharged by z3/cvc5 (bounded companion search only for failing inputs)"
COMMON = ("Every obligation generated from /repo's current source is discharged by an SMT solver, for all inputs and all iterations (partial correctness). "
          "Trusted: the generator /verif/gvc, go/ssa, the solvers, the contracts marked trusted and the library models listed in the evidence. ")
CLAIMED = {}
exec(open(os.path.join(V, "tools", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i,
                            "technique": TECH, "level": "proof", "level_note": COMMON + CLAIMED[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, PENDING)})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not claimed")
