#!/usr/bin/env python3
"""Regenerates MANIFEST.json: a property is claimed when checks/<id>.py exists."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTES = json.load(open(os.path.join(V, "tools", "levels.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        n = NOTES[i]
        checks.append({"property": i, "quick_cmd": "bin/check " + i,
                       "thorough_cmd": "VERIF_TIER=thorough bin/check " + i,
                       "technique": n["technique"], "level": n.get("level", "model_checking"),
                       "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("reason", "not built yet: the check for this property is still being written")})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "One TLA+ specification family (spec/), checked with TLC and bound to the code by validating recorded behaviour (harness/, checks/). No hooks in /repo are needed: everything is observed through the public headers and the executable."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
