#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | what it breaks |", "|---|---|---|"]
for d in sorted(glob.glob(home + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append("| %s | %s | %s |" % (os.path.basename(d), m.get("caught_by", m["property"]), m["what_it_breaks"].replace("|", "\\|")))
p = home + "/DESIGN.md"
s = open(p).read()
i = s.index("<!-- planted bugs -->") if "<!-- planted bugs -->" in s else s.index("SEEDED-TABLE")
open(p, "w").write(s[:i] + "<!-- planted bugs -->\n" + "\n".join(rows) + "\n")
