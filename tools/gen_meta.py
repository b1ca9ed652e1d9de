#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (one source for both)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        if len(p["title"]) > 80: sys.exit(f"title too long: {p['id']} {len(p['title'])}")
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p.get("observe", []), "hook_needed": None}}) + "\n")
checks, na = [], []
for p in PROPS:
    if os.path.exists(os.path.join(root, "laws", p["id"] + ".cpp")):
        checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} --tier quick", "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
            "technique": p.get("technique", "property-based testing") , "level": "exploration",
            "level_note": p["note"] + " Generated-input search with shrinking under AddressSanitizer; nothing is proved beyond the cases generated."})
    else: na.append({"property": p["id"], "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 -c 'import sys; sys.exit(0)'", "checks": checks, "not_applicable": na,
    "notes": "No hooks: the checks build /repo's sources as they are (g++ with AddressSanitizer and coverage callbacks) into /verif/build."}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
