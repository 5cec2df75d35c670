#!/usr/bin/env python3
"""Puts the table of planted bugs into DESIGN.md, from seeded/*/meta.json."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(H + "/seeded/*/meta.json"):
    m = json.load(open(f)); rows.append((m["property"], os.path.basename(os.path.dirname(f)), m))
out = ["| property | id | what breaks | needs | caught by |", "|---|---|---|---|---|"]
c = lambda s: s.replace("|", "\\|").replace("\n", " ")
for p, i, m in sorted(rows, key=lambda r: r[:2]):
    out.append(f"| {p} | {i} | {c(m['what_it_breaks'])} | {c(m['needs'])} | {m.get('caught_by', p + ' quick')} |")
b, e = "<!-- table by tools/mkseeded.py -->\n", "<!-- end of table -->"
s = open(H + "/DESIGN.md").read()
i, j = s.index(b) + len(b), s.index(e)
open(H + "/DESIGN.md", "w").write(s[:i] + "\n".join(out) + "\n" + s[j:])
