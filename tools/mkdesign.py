#!/usr/bin/env python3
"""writes DESIGN.md from design_text.md, the specs, the claims and the planted bugs (dev tool)"""
import json, os, sys, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "spvc")); sys.path.insert(0, os.path.join(ROOT, "tools"))
import reg, run
run.load_specs()
from claims import NOTE, NA, WHY
times = json.load(open(os.path.join(ROOT, "specs", "times.json")))
text = open(os.path.join(ROOT, "tools", "design_text.md")).read()
ps = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
out = []
for p in ps:
    i = p["id"]
    if i not in NOTE: continue
    fs = reg.PROPS.get(i, [])
    m = "".join(sorted({reg.FNS[f].fmode for f in fs}))
    out.append(f"### {i} {p['title']}\n- Under contract ({len(fs)}, mode {m}): " + ", ".join(f"`{f}`" for f in fs) + ".\n- " + WHY.get(i, "Each function's postcondition is its part of the statement, quantified over all positions; the frame gives \"nothing else is changed\", the memory obligations give \"nothing outside is touched\".")
               + f"\n- Scope: {NOTE[i]}\n- Cost: {sum(times.get(f, 5) for f in fs):.0f} s of work over 8 cores. Why beyond tests: {p['why_tests_cant']}.\n")
seeds = ["| bug | property | needs | result |", "| --- | --- | --- | --- |"]
res = {}
try: res = json.load(open(os.path.join(ROOT, "tools", "seed_results.json")))
except OSError: pass
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))):
    n = os.path.basename(d); j = json.load(open(os.path.join(d, "meta.json")))
    seeds.append(f"| {n} | {j['property']} | {j['needs']} | {res.get(n, 'caught with a failing input')} |")
text = text.replace("@SEEDS@", "\n".join(seeds)).replace("@PROPS@", "\n".join(out)).replace("@NA@", "\n".join(f"- {p['id']} {p['title']}: {NA.get(p['id'], 'contracts not written yet')}." for p in ps if p["id"] not in NOTE))
open(os.path.join(ROOT, "DESIGN.md"), "w").write(text)
