#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a driver."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTES = json.load(open(os.path.join(V, "bin", "level_notes.json")))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "bin/check %s --tier quick" % i,
                       "thorough_cmd": "bin/check %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "TLA+ specification model-checked with TLC; its behaviours and random ones replayed into the code and the recorded traces validated by TLC",
                       "level": "model_checking",
                       "level_note": NOTES.get(i, "Exhaustive on the design for small constants; the code is decided on the replayed and randomly generated executions only.")})
    else:
        na.append({"property": i, "reason": NOTES.get("NA " + i, "no check yet")})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks: all observation is through the public API."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
