#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (no check uses this)."""
import json, os, re
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(top + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (top, d)))
    rows.append("| %s | %s | %s |" % (m["property"], d, m["needs"]))
rows.sort()
t = "<!-- table -->\n| caught by | bug | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n<!-- end -->"
p = top + "/DESIGN.md"
s = open(p).read().replace("@@TABLE@@", "<!-- table -->\n<!-- end -->")
s = re.sub(r"<!-- table -->.*<!-- end -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
