#!/opt/veriftools/pyvenv/bin/python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the checks present."""
import importlib
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from tools.props import P
from tools import notes

with open(ROOT + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in P:
    i = p["id"]
    if os.path.exists("%s/checks/%s.py" % (ROOT, i)) and i not in notes.NA:
        checks.append({"property": i, "quick_cmd": "./run_check %s" % i, "thorough_cmd": "VERIF_TIER=thorough ./run_check %s" % i,
                       "technique": notes.TECH.get(i, "symbolic execution of the compiled MIR + SMT (z3, cvc5), native replay"),
                       "level": "model_checking", "level_note": notes.LEVEL.get(i, notes.DEFAULT)})
    else:
        na.append({"property": i, "reason": notes.NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
open(ROOT + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
