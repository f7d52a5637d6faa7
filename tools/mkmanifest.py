#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property with checks/<id>.py, the others under not_applicable."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
NOTES = {
}
NOTES.update(json.load(open(os.path.join(R, "tools", "notes.json"))))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(R, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                       "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": NOTES[i][0], "level": "model_checking", "level_note": NOTES[i][1]})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Specifications in spec/ (TLA+, TLC); harnesses in harness/ run on the project's own interpreter. No hooks in /repo: observation is done at documented interfaces from the harness."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "unclaimed")
