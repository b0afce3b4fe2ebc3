#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b) for a, b in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_text.py")).read())
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
