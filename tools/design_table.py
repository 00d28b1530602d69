#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    m = json.load(open(f)); rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["what_it_breaks"]))
rows.sort()
t = "| property, check | planted bug | what it breaks |\n|---|---|---|\n" + "".join(f"| {p} | {b} | {w.replace('|', '/')} |\n" for p, b, w in rows)
p = f"{V}/DESIGN.md"; s = open(p).read()
if "@TABLE@" in s: s = s.replace("@TABLE@\n", "<!-- table -->\n" + t + "<!-- end -->\n")
else: s = re.sub(r"<!-- table -->\n.*?<!-- end -->\n", lambda m: "<!-- table -->\n" + t + "<!-- end -->\n", s, flags=re.S)
open(p, "w").write(s)
