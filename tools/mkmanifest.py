#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
exec(open(os.path.join(root, "tools", "checks.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in T:
        tech, note = T[p]
        checks.append({"property": p, "quick_cmd": f"./run.sh {p} quick", "thorough_cmd": f"./run.sh {p} thorough",
                       "technique": tech, "level": "other", "level_note": note})
    else:
        na.append({"property": p, "reason": NA.get(p, "no static check of this property has been built yet")})
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
