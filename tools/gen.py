#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the entries in tools/props/*.py."""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = []
for f in sorted(glob.glob(os.path.join(R, "tools", "props", "*.py"))):
    ns = {}
    exec(open(f).read(), ns)
    props.append(ns["P"])
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in props:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
checks, na = [], []
for p in props:
    if p.get("technique"):
        checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough",
                       "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["na"]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harness (harness/) uses the crate's public API over an overlay of /repo without the yaml dependency, which this sandbox lacks."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
