#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/drivers.json and properties.jsonl."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
drv = json.load(open(f"{V}/tools/drivers.json"))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in drv:
        checks.append({"property": i, "quick_cmd": f"python3 tools/check.py {i} quick", "thorough_cmd": f"python3 tools/check.py {i} thorough",
                       "technique": drv[i].get("technique", "stateless model checking: exhaustive bounded enumeration of configurations, inputs and schedules of the real code under a virtual MPI with a controlled scheduler"),
                       "level": "model_checking", "level_note": drv[i].get("note", "exhaustive within the bounds written to the evidence file")})
    else:
        na.append({"property": i, "reason": drv.get("_na", {}).get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
