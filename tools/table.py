#!/usr/bin/env python3
"""rewrites the table of DESIGN.md from seeded/*/meta.json and tools/caught.txt (lines: id check...)"""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for l in open(V + "/tools/caught.txt"):
    f = l.split()
    if f:
        caught[f[0]] = f[1:]
rows = ["| planted bug | property | needs | caught by (quick) |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/")):
    i = os.path.basename(d[:-1])
    m = json.load(open(d + "meta.json"))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), ", ".join(caught.get(i, [])) or "-"))
p = V + "/DESIGN.md"
s = open(p).read()
t = "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->"
s = s.replace("@@TABLE@@", t) if "@@TABLE@@" in s else re.sub(r"<!-- table -->.*?<!-- end -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
