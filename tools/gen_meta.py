#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from sa/spec.py."""
import json
import os
import sys

sys.dont_write_bytecode = True
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, ROOT)
from sa import rules, spec

NOTE = ("Static, nothing is executed. Decides the structural part of the property: which inputs, operations and "
        "conditions each output depends on, per entry point, against reviewed contracts{}. Trusts the contracts' review, "
        "treats library calls as uninterpreted, summarises loops by one generic iteration; numeric accuracy is not decided.")


def line(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    assert len(title) <= 80, title
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why, "anchors": a}


with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in spec.PROPS:
        f.write(json.dumps(line(p.id, p.title, p.statement, p.over, p.qtext, p.why, p.files, p.mech, p.state,
                                p.observe)) + "\n")
    for n in spec.NOT_CLAIMED:
        f.write(json.dumps(line(*n[:6], n[6], [("none in reach of a static argument", n[6][0])])) + "\n")

checks = []
na = [{"property": n[0], "reason": n[7]} for n in spec.NOT_CLAIMED]
for p in spec.PROPS:
    rl = [r for r in p.rules if r in rules.RULES]
    if p.cells == "^$" and not rl:
        na.append({"property": p.id, "reason": "rules not built yet"})
        continue
    tech = "abstract interpretation into per-output dependence contracts" if p.cells != "^$" else ""
    if rl:
        tech += ("; " if tech else "") + "whole-program rules: " + ", ".join(r.replace("_", " ") for r in rl)
    checks.append({"property": p.id, "quick_cmd": "python3 check.py %s --tier quick" % p.id,
                   "thorough_cmd": "python3 check.py %s --tier thorough" % p.id,
                   "evidence_file": "evidence/%s.json" % p.id, "technique": tech, "level": "other",
                   "level_note": NOTE.format("" if not rl else ", plus the rules named in technique")})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 -c 'import ast, sys; assert sys.version_info >= (3, 10)'",
               "checks": checks, "not_applicable": na}, f, indent=1)
print(len(checks), "checks,", len(na), "not applicable")
