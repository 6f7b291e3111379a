#!/usr/bin/env python3
"""MANIFEST.json from checks.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import checks
ids = [json.loads(l)["id"] for l in open(f"{H}/properties.jsonl")]
out = {"version": 1, "setup_cmd": "python3-vt setup.py", "checks": [], "not_applicable": []}
for i in ids:
    c = checks.CHECKS.get(i)
    if c is None:
        out["not_applicable"].append({"property": i, "reason": checks.NA.get(i, "machinery not built yet")})
        continue
    out["checks"].append({"property": i, "quick_cmd": f"python3-vt run.py {i}", "thorough_cmd": f"python3-vt run.py {i} thorough",
                          "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
json.dump(out, open(f"{H}/MANIFEST.json", "w"), indent=1)
