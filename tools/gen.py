#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (properties.py)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from properties import PROPS, NOT_APPLICABLE
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "bash /verif/build.sh", "checks": [
    {"property": p["id"], "quick_cmd": f"bash /verif/check.sh {p['id']}",
     "thorough_cmd": f"bash /verif/check.sh {p['id']} thorough",
     "technique": p["technique"], "level": "exploration", "level_note": p["note"]}
    for p in PROPS if not any(n["property"] == p["id"] for n in NOT_APPLICABLE)],
    "not_applicable": NOT_APPLICABLE}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
