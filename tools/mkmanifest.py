#!/usr/bin/env python3
"""writes MANIFEST.json from the claimed properties and the reasons below (dev tool)"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "spvc"))
import reg, run
run.load_specs()
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
sys.path.insert(0, os.path.join(ROOT, "tools"))
from claims import NOTE, NA, TECH
checks = []; na = []
for p in props:
    i = p["id"]
    if i in NOTE:
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --thorough", "evidence_file": f"evidence/{i}.json",
                       "technique": TECH.get(i, "contract-based deductive verification: contracts on the functions of /repo, verification conditions generated from the clang AST of the current source, discharged by z3 and cvc5"),
                       "level": "proof", "level_note": NOTE[i],
                       "theorems": sorted(reg.PROPS.get(i, []))})
    else: na.append({"property": i, "reason": NA.get(i, "contracts not written yet")})
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.exit(0)\"", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the verified text is /repo's source as clang parses it. known-findings.json lists repaired and recorded defects."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", [x["property"] for x in na])
