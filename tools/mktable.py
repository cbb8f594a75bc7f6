#!/usr/bin/env python3
"""rewrites the table of planted changes at the end of DESIGN.md"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, "tools", "caught.json")))
p = os.path.join(HERE, "DESIGN.md")
head = open(p).read().split("<!-- planted -->")[0]
rows = ["<!-- planted -->", "", "| change | needs | caught by | remark |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", i, "meta.json")))
    n = NOTES.get(i, {})
    rows.append(f"| {i} | {m['needs']} | {n.get('by', m['property'])} | {n.get('note', '')} |")
open(p, "w").write(head + "\n".join(rows) + "\n")
