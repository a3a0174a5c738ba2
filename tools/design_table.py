#!/usr/bin/env python3
"""Fills the table of planted bugs of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| bug | caught by | needs | breaks |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m["needs"], m["what_it_breaks"]))
f = os.path.join(V, "DESIGN.md")
s = open(f).read()
t = "\n".join(rows)
s = s.replace("@@TABLE@@", t) if "@@TABLE@@" in s else re.sub(r"\| bug \| caught by .*?(?=\n\n)", lambda _: t, s, flags=re.S)
open(f, "w").write(s)
