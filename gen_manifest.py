#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
NOTES = json.load(open(os.path.join(HERE, "levels.json")))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    n = NOTES.get(i)
    if not n:
        na.append({"property": i, "reason": "check under construction"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 run.py %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": n["technique"],
        "level": n.get("level", "model_checking"),
        "level_note": n["note"],
    })
m = {"version": 1, "setup_cmd": "python3 run.py --build", "checks": checks,
     "not_applicable": na,
     "notes": "No hooks in /repo: the harness controls the operating "
              "system's generator by replacing the getrandom crate in its "
              "own build ([patch.crates-io] in harness/Cargo.toml)."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
