#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from table.py."""
import json, os
from table import PROPS

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
reg = open(f"{V}/harness/src/registry.rs").read()
PROPS = [p for p in PROPS if p["na"] or f'id: "{p["id"]}"' in reg]
with open(f"{V}/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"./run.sh {p['id']} quick",
        "thorough_cmd": f"./run.sh {p['id']} thorough",
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    } for p in PROPS if p["technique"]],
    "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if not p["technique"]],
    "notes": "No hooks were needed in /repo: everything is observed at the public API, the command line and the process.",
}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=2)
open(f"{V}/MANIFEST.json", "a").write("\n")
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
