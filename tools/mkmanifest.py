#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(HERE, "tools", "levels.json")))
TECH = ("contracts on the real functions, proof obligations generated from the current source by symbolic execution of the mechanically "
        "transformed code (pyvc) and discharged by z3/cvc5; refuted obligations and random inputs replayed on the real code")
checks = []
for p in props:
    n = NOTES[p["id"]]
    checks.append(dict(property=p["id"], quick_cmd="python3-vt -B check.py %s --tier quick" % p["id"],
                       thorough_cmd="python3-vt -B check.py %s --tier thorough" % p["id"],
                       evidence_file="evidence/%s.json" % p["id"], technique=TECH, level=n["level"], level_note=n["note"]))
doc = dict(version=1, setup_cmd="python3-vt -c 'import z3' && cvc5 --version >/dev/null && /opt/venv-pypy/bin/python -c 'import numpy'",
           checks=checks, not_applicable=[],
           notes="Nothing is built: every check reads /repo/atrcopy/*.py as it is when the check starts. No hooks in /repo.")
json.dump(doc, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
