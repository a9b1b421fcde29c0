#!/usr/bin/env python3
"""writes MANIFEST.json from the plan (run by hand after editing the plan)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan.PLAN:
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "technique": plan.TECHNIQUE[i], "level": plan.LEVEL.get(i, "model_checking"),
                       "level_note": plan.NOTE.get(i, plan.DEFAULT_NOTE)})
    else:
        na.append({"property": i, "reason": plan.NA.get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; behaviours replayed into the real code by driver/*.cpp. No hooks in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
