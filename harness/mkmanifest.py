#!/usr/bin/env python3
"""Writes MANIFEST.json"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan.PLAN:
        t, note = plan.NOTES.get(i, plan.NOTE)
        checks.append(dict(property=i, quick_cmd="python3 harness/check.py " + i,
                           thorough_cmd="VERIF_TIER=thorough python3 harness/check.py " + i,
                           technique=t, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason=plan.NOT_YET.get(i, "specification and conformance check not built yet")))
json.dump(dict(version=1, setup_cmd="sh tools/setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: everything is observed from outside (command results, files, system calls)."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
