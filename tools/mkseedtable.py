#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m.get("caught_by", m["property"]), m["needs"].replace("|", "/")))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a, b = s.split("<!-- seeds -->")[0], s.split("<!-- /seeds -->")[1]
open(p, "w").write(a + "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->" + b)
