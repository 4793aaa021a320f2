#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | breaks | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(root + "/seeded/" + d + "/meta.json"))
    one = lambda s: s.replace("\n", " ").replace("|", "/")
    rows.append("| %s | %s | %s | %s |" % (d, one(m["what_it_breaks"]), one(m["needs"]), m["property"]))
f = root + "/DESIGN.md"
s = open(f).read()
a = s.index("<!-- plants -->"); b = s.index("<!-- end -->")
open(f, "w").write(s[:a] + "<!-- plants -->\n" + "\n".join(rows) + "\n" + s[b:])
