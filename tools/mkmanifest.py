#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (the one place they are edited)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NA
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
checks = []
for p in PROPS:
    checks.append({"property": p["id"], "quick_cmd": "./check.sh " + p["id"], "thorough_cmd": "./check.sh " + p["id"],
                   "technique": p["technique"], "level": "other", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
     "notes": "Every check rebuilds the analyser from /verif/analyzer and reads /repo's current source; nothing of /repo is executed."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
