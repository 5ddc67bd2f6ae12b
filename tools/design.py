#!/usr/bin/env python3
"""Write DESIGN.md from its head and tail, the properties, the findings and the planted bugs."""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = json.load(open(f"{R}/tools/missed.json")) if os.path.exists(f"{R}/tools/missed.json") else {}
out = open(f"{R}/tools/design_head.md").read() + "## Properties\n\n"
for f in sorted(glob.glob(f"{R}/tools/props/*.py")):
    ns = {}
    exec(open(f).read(), ns)
    P = ns["P"]
    out += f"### {P['id']} {P['title']}\n\n"
    if P.get("na"):
        out += f"Not claimed: {P['na']}\n\n"
    else:
        out += f"**Method.** {P['technique']}.\n\n**Bounds.** {P['note']}\n\n**Why beyond tests.** {P['why_tests_cant']}\n\n"
        if P.get("design"):
            out += P["design"].strip() + "\n\n"
out += "## Genuine defects found\n\nRepaired in /repo by one `fix:` commit each (recorded in known_findings.jsonl):\n\n"
known = ""
for l in open(f"{R}/known_findings.jsonl"):
    d = json.loads(l)
    if d["status"] == "fixed":
        out += "- " + d["what"].replace("fixed: property=", "", 1) + "\n"
    else:
        known += f"- {d['property']} {d['what']}\n"
if known:
    out += "\nRecorded and not repaired:\n\n" + known
out += "\n## Planted bugs\n\nEach lies in seeded/<id>/; \"caught\" is by the quick check of its property.\n\n| bug | property | needs | caught |\n|---|---|---|---|\n"
for f in sorted(glob.glob(f"{R}/seeded/*/meta.json")):
    m = json.load(open(f))
    b = os.path.basename(os.path.dirname(f))
    out += f"| {b} | {m['property']} | {m['needs']} | {MISSED.get(b, 'yes')} |\n"
out += open(f"{R}/tools/design_tail.md").read()
open(f"{R}/DESIGN.md", "w").write(out)
