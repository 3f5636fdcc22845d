#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions in this directory (run after editing them)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from defs import CLAIMED, NOT_APPLICABLE, TECH, NOTES, HOOKS

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in CLAIMED + NOT_APPLICABLE:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(q) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": [], "not_applicable": [], "notes": NOTES}
if HOOKS:
    m["hooks"] = HOOKS
for p in CLAIMED:
    m["checks"].append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "technique": p.get("technique", TECH),
        "level": "exploration",
        "level_note": p["level_note"],
    })
for p in NOT_APPLICABLE:
    m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
