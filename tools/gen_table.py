#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/ and tools/caught.txt."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(f"{root}/DESIGN.md").read().split("<!-- table -->")[0]
caught = {}
if os.path.exists(f"{root}/tools/caught.txt"):
    for l in open(f"{root}/tools/caught.txt"):
        n, _, r = l.strip().partition(": ")
        caught[n] = "caught" if r.startswith("CAUGHT") else "missed"
rows = ["| Planted | Check | What it needs | What it breaks |", "|---|---|---|---|"]
for n in sorted(os.listdir(f"{root}/seeded")):
    m = json.load(open(f"{root}/seeded/{n}/meta.json"))
    e = lambda t: t.replace("|", "\\|").replace("\n", " ")
    rows.append(f"| {n} | {m['property']} {caught.get(n, '')} | {e(m['needs'])} | {e(m['what_it_breaks'])} |")
open(f"{root}/DESIGN.md", "w").write(s + "<!-- table -->\n" + "\n".join(rows) + "\n")
