#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and harness/plans.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "harness"))
from plans import PLANS, NOTES  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in PLANS:
        note, tech = NOTES[pid]
        checks.append({
            "property": pid,
            "quick_cmd": f"./check.py {pid} --tier quick",
            "thorough_cmd": f"./check.py {pid} --tier thorough",
            "technique": "TLA+ specification checked with TLC; " + tech,
            "level": "model_checking",
            "level_note": note,
        })
    else:
        na.append({"property": pid, "reason": "no check has been built for it yet"})
json.dump({"version": 1, "setup_cmd": "java -version && /opt/venv/bin/python -c 'import antlr4, attr'", "checks": checks,
           "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
