#!/usr/bin/env python3
"""Regenerate MANIFEST.json from tools/plan.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import plan
root = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in plan.PROPS:
        na.append({"property": i, "reason": "no check built"})
        continue
    q = plan.PROPS[i]
    checks.append({
        "property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i, "technique": q.get("technique", plan.TECH_CODEC), "level": "exploration",
        "level_note": q.get("note", plan.NOTE_CODEC),
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harness uses the exported API, and substitutes the network through a build overlay of package net."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
