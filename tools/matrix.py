#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between the markers), from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a, b = "<!-- planted -->\n", "<!-- /planted -->\n"
t = a + "| bug | caught by | what it breaks | needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n" + b
s = s.replace("MATRIX\n", t, 1) if a not in s else s[:s.index(a)] + t + s[s.index(b) + len(b):]
open(p, "w").write(s)
