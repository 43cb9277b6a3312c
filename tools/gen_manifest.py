#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with checks/<id>.py is claimed, the others go under not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = {}
exec(open(V + "/tools/notes.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTE and os.path.exists("%s/checks/%s.py" % (V, i.lower())):
        tech, note = NOTE[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "python3 run.py %s thorough" % i,
                       "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "the specification and its binding to the code are not built yet")})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
     "notes": "All checks use TLA+ specifications in spec/ decided with TLC; see DESIGN.md. No hooks in /repo: the harnesses compile /repo's own sources with forced-include instrumentation kept in /verif."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
