#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
PY = "/opt/venv/bin/python"
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTES:
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick %s harness/run.py %s" % (PY, i),
                       "thorough_cmd": "VERIF_TIER=thorough %s harness/run.py %s" % (PY, i),
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": NOTES[i]["technique"], "level": "model_checking", "level_note": NOTES[i]["note"]})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications (TLC) in spec/, drivers that record and replay the real code in harness/. "
              "No hooks in /repo: every observation goes through the package's own functions."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
