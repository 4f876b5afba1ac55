#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from checks import CHECKS
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if c is None:
        na.append({"property": p["id"], "reason": "no check built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 run.py {p['id']} quick",
        "thorough_cmd": f"python3 run.py {p['id']} thorough",
        "technique": c["technique"],
        "level": "model_checking",
        "level_note": c["note"],
    })
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hook in /repo: threads are controlled by replacing the parking_lot crate ([patch.crates-io] in crates/sched) and by interposing pthread_create/join and futex in the harness process."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
