#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/props.py (only properties with a check are claimed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "meta"))
from props import PROPS
checks = json.load(open(os.path.join(V, "checks.json")))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        if p["id"] not in checks and "na" not in p:
            continue
        assert len(p["title"]) <= 80, p["id"]
        q = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "observe_at": p["observe"], "hook_needed": None}}
        f.write(json.dumps(q) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the harness builds /repo/src with its own build files and replaces the socket layer, the "
              "logger and nothing else at link time. See DESIGN.md."}
for p in PROPS:
    if p["id"] in checks:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                            "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                            "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
    elif "na" in p:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
