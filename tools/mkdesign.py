#!/usr/bin/env python3
"""Development aid: rewrite the table of planted bugs at the end of DESIGN.md."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(R + "/DESIGN.md").read()
mark = "every seed is caught by the check of its property:\n"
head = s[:s.index(mark) + len(mark)]
rows = ["", "| seed | property | what it breaks |", "|---|---|---|"]
for d in sorted(os.listdir(R + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (R, d)))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["what_it_breaks"]))
open(R + "/DESIGN.md", "w").write(head + "\n".join(rows) + "\n")
