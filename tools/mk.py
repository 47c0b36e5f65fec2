#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (properties without props/<id>.py go to not_applicable)."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contracts on the real functions, discharged by symbolic execution of the instrumented source + exact normal form + z3; counterexamples replayed"
NOTE = ("Every obligation is generated from /repo's current source and discharged over exact reals for all inputs of the stated domain; "
        "numpy/scipy primitives and the source instrumentation are trusted (vc/), floating-point rounding is only exercised by run-time contracts on the unmodified code.")
P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), note=None, level="proof", tech=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe))), note, level, tech))


exec(open(os.path.join(ROOT, "tools", "table.py"), encoding="utf-8").read())

NA = {}
exec(open(os.path.join(ROOT, "tools", "na.py"), encoding="utf-8").read()) if os.path.exists(os.path.join(ROOT, "tools", "na.py")) else None
P.sort(key=lambda x: x[0]["id"])
with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as f:
    for d, *_ in P:
        assert len(d["title"]) <= 80, d["id"]
        assert len(re.findall(r"[.?!](?:\s|$)", d["statement"])) <= 3, (d["id"], d["statement"])
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
checks, na = [], []
for d, note, level, tech in P:
    i = d["id"]
    if os.path.exists(os.path.join(ROOT, "props", i + ".py")) and i not in NA:
        checks.append(dict(property=i, quick_cmd=f"python3-vt check.py {i} --tier quick", thorough_cmd=f"python3-vt check.py {i} --tier thorough",
                           technique=tech or TECH, level=level, level_note=(note + " " if note else "") + NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, "contracts for this property are not built yet")))
json.dump(dict(version=1, setup_cmd="python3-vt -c \"import z3, numpy, mpmath\" && /opt/venv/bin/python -c \"import numpy, scipy, sympy\"",
               checks=checks, not_applicable=na,
               notes="No hooks in /repo. properties.jsonl and this file are written by tools/mk.py."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not applicable")
