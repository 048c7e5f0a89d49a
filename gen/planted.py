#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); D = os.path.join(H, "DESIGN.md")
s = open(D).read(); mark = "\n| planted bug | caught by |"; s = s.split(mark)[0].rstrip("\n") + "\n"
s += mark + " needs |\n|---|---|---|\n"
for i in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", i, "meta.json"))); s += "| %s | %s%s | %s |\n" % (i, m["property"], m.get("also", ""), m["needs"])
open(D, "w").write(s)
