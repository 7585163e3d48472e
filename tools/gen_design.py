#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), d["property"], d["needs"]))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
t = "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- /planted -->"
s = s.replace("@@SEEDS@@", t) if "@@SEEDS@@" in s else re.sub(r"<!-- planted -->.*<!-- /planted -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
