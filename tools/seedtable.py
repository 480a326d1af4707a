#!/usr/bin/env python3
"""Inserts the table of planted bugs (seeded/*/meta.json, tools/caught.txt) into DESIGN.md."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = dict(l.split(None, 1) for l in open(os.path.join(H, "tools", "caught.txt")) if l.strip())
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    rows.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"], caught.get(i, "not run").strip()))
p = os.path.join(H, "DESIGN.md")
s = open(p).read()
i = s.index("## 6. Planted bugs")
s = s[:i] + "## 6. Planted bugs\n\nEach patch compiles, passes the 41 tests and has a demonstration; quick tier, seed 1.\n\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
