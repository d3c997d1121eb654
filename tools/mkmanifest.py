#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and plans.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from plans import PLANS, NOTES
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i in PLANS:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.py {i} quick",
            "thorough_cmd": f"./check.py {i} thorough",
            "technique": "TLA+ specification explored by TLC (exhaustive scenarios and random behaviours); every behaviour is encoded to bytes, replayed into the real decoder and compared with what the specification says",
            "level": "model_checking",
            "level_note": NOTES.get(i, ""),
        })
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": "no check yet"} for p in props if p["id"] not in PLANS]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
