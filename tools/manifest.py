#!/usr/bin/env python3
"""Writes MANIFEST.json: which properties are claimed, and how."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "explicit TLA+ specification: TLC model checking of the design, TLC-generated scenarios replayed into the real code, TLC trace checking of what it did"
NOTES = checks.NOTES
out = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        out["checks"].append({"property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": TECH, "level": "model_checking",
            "level_note": NOTES.get(i, "The specification is checked exhaustively within small bounds; the code is bound to it by replaying generated scenarios and checking the recorded behaviour against it, so the code is covered on the explored scenarios only.")})
    else:
        out["not_applicable"].append({"property": i, "reason": checks.NA.get(i, "not built yet")})
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "checks")
