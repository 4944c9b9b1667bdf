#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NA
from checks import CHECKS
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
ids = [p["id"] for p in PROPS]
m = {"version": 1, "setup_cmd": "python3 -c \"import os; os.makedirs('build', exist_ok=True)\"",
     "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "Checks build the header-only filter and the five applications from /repo's working tree against the offline ROS stand-ins in shim/ and tools/gen_ros.py; no hooks in /repo are needed."}
for p in PROPS:
    i = p["id"]
    if i in NA:
        continue
    assert i in CHECKS, i
    m["checks"].append({"property": i, "quick_cmd": "python3 run_check.py %s quick" % i, "thorough_cmd": "python3 run_check.py %s thorough" % i,
                        "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(ids), "properties,", len(m["checks"]), "checks")
