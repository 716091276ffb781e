#!/usr/bin/env python3
"""writes /verif/properties.jsonl from the table below (one source for the property texts)"""
import json, os
P = "source/c-precompiled/sph-sp/"
F = "source/c/foreign/sph-sc-lib/sph-sp/"
props = []
def p(id, title, statement, over, quant, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, title
    props.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(observe), hook_needed=None)))

exec(open(os.path.join(os.path.dirname(__file__), "props_table.py")).read())
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in props: f.write(json.dumps(x) + "\n")
print(len(props))
