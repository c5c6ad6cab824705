#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json and the given log of catches."""
import glob, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for l in open(os.path.join(ROOT, "seeded", "caught.txt")):
    a = l.split()
    if a:
        caught[a[0]] = a[1:]
rows = ["| planted bug | breaks | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"], m["needs"], " ".join(caught.get(i, ["?"]))))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(<!-- catches -->\n).*?(<!-- end -->)", lambda m: m[1] + "\n".join(rows) + "\n" + m[2], s, flags=re.S)
open(p, "w").write(s)
