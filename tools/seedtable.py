#!/usr/bin/env python3
"""Rewrites the table of planted bugs of DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(V + "/seeded/*/meta.json"):
    d = json.load(open(f))
    rows.append((d["property"], os.path.basename(os.path.dirname(f)), d["needs"]))
rows.sort()
table = "<!-- seeds -->\n| planted bug | property and check that catches it (quick) | needs |\n| --- | --- | --- |\n"
table += "".join("| %s | %s | %s |\n" % (i, p, n) for p, i, n in rows) + "<!-- /seeds -->"
t = open(V + "/DESIGN.md").read()
t = t.replace("@SEEDS@", table) if "@SEEDS@" in t else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: table, t, flags=re.S)
open(V + "/DESIGN.md", "w").write(t)
