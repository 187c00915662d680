#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    rows.append(f"| {n} | {m['property']} | {m['needs']} | {m.get('caught', 'caught')} |")
t = open(V + "/DESIGN.md").read(); mark = "<!-- seeds -->\n"
head = t.split(mark)[0]
open(V + "/DESIGN.md", "w").write(head + mark + "| planted bug | check | needs | result (quick, seed 1) |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
