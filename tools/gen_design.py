#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(H + "/DESIGN.md").read()
head = t[:t.index("<!-- table -->")]
rows = ["| change | caught by | needs |", "|---|---|---|"]
for d in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(H + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/")))
open(H + "/DESIGN.md", "w").write(head + "<!-- table -->\n" + "\n".join(rows) + "\n")
