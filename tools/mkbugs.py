#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (development only)."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STRONGER = set(open(os.path.join(ROOT, "tools", "strengthened.txt")).read().split())
D = os.path.join(ROOT, "DESIGN.md")
s = open(D).read()
head = s[:s.index("| bug | property |")]
rows = []
for m in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    i, d = os.path.basename(os.path.dirname(m)), json.load(open(m))
    e = lambda t: t.replace("|", "\\|").replace("\n", " ")
    rows.append("| %s%s | %s | %s | %s |" % (i, "\\*" if i in STRONGER else "", d["property"], e(d["what_it_breaks"]), e(d["needs"])))
open(D, "w").write(head + "| bug | property | breaks | needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
