#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/DESIGN.md").read()
m = "<!-- table -->"
s = s.split(m)[0].replace("SEEDTABLE", "").rstrip() + "\n\n" + m + "\n| id | needs | breaks | caught by |\n|---|---|---|---|\n"
for i in sorted(os.listdir(V + "/seeded")):
    j = json.load(open(f"{V}/seeded/{i}/meta.json"))
    s += f"| {i} | {j['needs']} | {j['what_it_breaks']} | {j['property']} quick |\n"
open(V + "/DESIGN.md", "w").write(s)
