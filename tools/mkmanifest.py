#!/usr/bin/env python3
"""MANIFEST.json from checks.py and properties.jsonl."""
import sys, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = getattr(checks, "NOT_APPLICABLE", {})
m = {"version": 1, "setup_cmd": "python3 -m lib.vbuild rel asan", "checks": [], "not_applicable": []}
for p in props:
    c = checks.CHECKS.get(p["id"])
    if c:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 run.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p["id"],
                            "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": NA.get(p["id"], "No check built yet.")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed;", [x["property"] for x in m["not_applicable"]], "not")
