#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(R + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].rstrip(".")))
t = "<!-- seeded -->\n| planted | caught by | what it breaks |\n|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeded -->"
p = R + "/DESIGN.md"
s = open(p).read()
s = s.replace("@@SEEDED@@", t) if "@@SEEDED@@" in s else re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
