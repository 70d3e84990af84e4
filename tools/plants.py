#!/usr/bin/env python3
"""plants.py: rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and seeded/caught.txt."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for l in open(V + "/seeded/caught.txt"):
    a = l.split()
    if a:
        caught[a[0]] = ", ".join(a[1:])
rows = ["| bug | property | what it needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m, n = json.load(open(f)), f.split("/")[-2]
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], str(m["needs"]).replace("|", "/").replace("\n", " "), caught.get(n, "?")))
d = open(V + "/DESIGN.md").read()
mark = "<!-- plants -->"
d = d.split(mark)[0].rstrip() + "\n\n" + mark + "\n" + "\n".join(rows) + "\n"
open(V + "/DESIGN.md", "w").write(d)
