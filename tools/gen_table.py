#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json (run by hand)."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a, b = s.split("## Planted changes", 1)
lines = b.split("\n")
i = next(i for i, x in enumerate(lines) if x.startswith("| change ") or x.startswith("| id |") or x.startswith("|---") or x.startswith("|--"))
while not lines[i].startswith("|-"):
    i += 1
j = i + 1
while lines[j].startswith("| "):
    j += 1
rows = []
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], m["what_it_breaks"]))
lines[i + 1:j] = rows
open(p, "w").write(a + "## Planted changes" + "\n".join(lines))
print(len(rows))
