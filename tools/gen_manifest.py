#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS
T = {}
for l in open(os.path.join(H, "tools", "techniques.txt")):
    l = l.strip()
    if l and l[0] != "#":
        k, t, n = [x.strip() for x in l.split("|")]
        T[k] = (t, n)
M = dict(version=1, setup_cmd="python3 run.py --build-all", checks=[], not_applicable=[],
         notes="No hooks in /repo. One engine (harness/pbt*.{hpp,cpp}); one property function per file harness/Cxx.cpp, run over generated cases in an optimised build with and without assertions and in an ASan+UBSan build (C22 also under TSan), thorough adds libFuzzer on the same function.")
for c in sorted(CHECKS):
    t, n = T[c]
    M["checks"].append(dict(property=c, quick_cmd="python3 run.py " + c, thorough_cmd="python3 run.py %s --tier thorough" % c,
                            evidence_file="evidence/%s.json" % c, technique=t, level=CHECKS[c].get("level", "exploration"), level_note=n))
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(M, f, indent=1)
    f.write("\n")
