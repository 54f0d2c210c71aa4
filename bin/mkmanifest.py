#!/usr/bin/env python3
"""Writes MANIFEST.json from the plan."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from plan import PLAN, NOTES
props = [json.loads(l) for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
TECH = "TLA+ specification, TLC bounded exhaustive model checking; TLC behaviours replayed into the real code and recorded executions checked against the specification"
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in PLAN:
        checks.append({"property": pid, "quick_cmd": "python3 bin/check.py " + pid,
                       "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + pid,
                       "technique": TECH, "level": "model_checking", "level_note": NOTES.get(pid, NOTES["default"])})
    else:
        na.append({"property": pid, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "cd driver && cargo build --offline --quiet", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is driven through the public API."}
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
