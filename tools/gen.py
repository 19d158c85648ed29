#!/usr/bin/env python3
"""generates properties.jsonl and MANIFEST.json from tools/props.py (development helper; not used by any check)"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NA

ids = set()
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        assert p["id"] not in ids, p["id"]
        ids.add(p["id"])
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        assert p["statement"].count(". ") <= 2, p["id"]
        d = {
            "id": p["id"],
            "title": p["title"],
            "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["forall"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
            },
        }
        f.write(json.dumps(d) + "\n")
checks = []
na = []
for p in PROPS:
    if os.path.exists(os.path.join(root, "sa", "checks", p["id"].lower() + ".py")):
        checks.append(
            {
                "property": p["id"],
                "quick_cmd": f"python3 -m sa.run {p['id']} quick",
                "thorough_cmd": f"python3 -m sa.run {p['id']} thorough",
                "technique": p["technique"],
                "level": "other",
                "level_note": p["note"],
            }
        )
    else:
        na.append({"property": p["id"], "reason": "check not built yet"})
for p in NA:
    na.append({"property": p["id"], "reason": p["reason"]})
m = {
    "version": 1,
    "setup_cmd": "python3 -c 'import ast, sa.run'",
    "checks": checks,
    "not_applicable": na,
    "notes": "Pure-stdlib static analyser (sa/): parses /repo/returnn on every run, lowers functions to CFGs, builds "
    "context-cloned interprocedural flow graphs and runs per-property rules on them. Nothing of /repo is imported or run.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "n/a")
