#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and lib/checks.py."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "lib"))
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = checks.NOTES
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [],
     "notes": "No hooks: every state the specification talks about is observable through the public interface. Genuine defects repaired in /repo are the 'fix:' commits listed in known_findings.json."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "technique": "TLA+ specification checked with TLC; TLC-generated scenarios and seeded runs of the real code validated as traces of it",
            "level": "model_checking", "level_note": NOTES[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": checks.NOT_CLAIMED.get(i, "Its check is not built yet.")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
