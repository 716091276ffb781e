#!/usr/bin/env python3
"""known-findings.json from tools/known.py (dev tool)"""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
import sys; sys.path.insert(0, os.path.join(ROOT, "tools"))
from known import FIXED, FINDINGS
out = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    m = [v for k, v in FIXED.items() if k in s]
    assert m, s
    for pid, what in m[0]: out.append(f"fixed: property={pid} {h} {what}")
out += [{"property": p, "kind": "finding", "what": w} for p, w in FINDINGS]
json.dump(out, open(os.path.join(ROOT, "known-findings.json"), "w"), indent=1)
