#!/usr/bin/env python3
"""Writes MANIFEST.json from gen/plans.py and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/gen")
import plans
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    pl = plans.PLANS.get(i)
    if not pl:
        na.append({"property": i, "reason": plans.NOT_CLAIMED.get(i, "no monitor built yet")})
        continue
    checks.append({
        "property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "./check %s --tier thorough" % i,
        "technique": pl["technique"], "level": "exploration", "level_note": pl["note"],
    })
m = {"version": 1,
     "setup_cmd": "./setup",
     "checks": checks, "not_applicable": na,
     "notes": "Runtime monitoring: real derive output and library code are executed on generated workloads; oracles observe the executions. Each check writes evidence/<id>.json; VERIF_SEED and VERIF_TIER are honoured. No hooks in /repo are needed: every observation is made through the public API."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
