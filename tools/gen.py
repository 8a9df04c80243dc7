#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import PROPS, NOTES
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for q in PROPS:
        assert len(q["title"]) <= 80, q["id"]
        assert q["statement"].count(". ") <= 2, (q["id"], q["statement"].count(". "))
        f.write(json.dumps({
            "id": q["id"], "title": q["title"], "statement": q["statement"],
            "quantifier": {"over": q["over"], "text": q["text"]},
            "why_tests_cant": q["why"],
            "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]],
                        "observe_at": q["observe"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [], "notes": NOTES}
for q in PROPS:
    m["checks"].append({"property": q["id"], "quick_cmd": "./run.sh " + q["id"],
                        "thorough_cmd": "./run.sh %s --tier thorough" % q["id"],
                        "technique": q["technique"], "level": q["level"], "level_note": q["note"]})
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
