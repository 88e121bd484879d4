#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties that have a check (lib/props/cNN.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(os.path.join(V, "tools", "techniques.json")))
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(V, "lib", "props", p.lower() + ".py")):
        checks.append({"property": p, "quick_cmd": "VERIF_TIER=quick ./check.py " + p, "thorough_cmd": "VERIF_TIER=thorough ./check.py " + p,
                       "technique": T[p]["technique"], "level": "model_checking", "level_note": T[p]["note"]})
    else:
        na.append({"property": p, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specification in spec/, checked with TLC; check.py replays generated behaviours into the code built from /repo and has TLC judge the recorded traces. No hooks in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
