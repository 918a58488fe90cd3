#!/usr/bin/env python3
"""Rewrites the planted-bug table in DESIGN.md from seeded/*/meta.json (run by hand, not by a check)."""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"].replace("|", "/").replace("\n", " ")))
p = here + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- planted:begin -->", "<!-- planted:end -->"
i, j = s.index(a) + len(a), s.index(b)
s = s[:i] + "\n| planted bug | caught by | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n" + s[j:]
open(p, "w").write(s)
