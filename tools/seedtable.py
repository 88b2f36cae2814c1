#!/usr/bin/env python3
"""Regenerates the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property / check that catches it | needs |", "|---|---|---|"]
for m in sorted(glob.glob(here + "/seeded/*/meta.json") + glob.glob(here + "/more_seeds/*/meta.json")):
    o = json.load(open(m)); rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), o["property"], o["needs"].replace("|", "/")))
s = open(here + "/DESIGN.md").read()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = s.replace("@SEEDS@", t) if "@SEEDS@" in s else re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: t, s, flags=re.S)
open(here + "/DESIGN.md", "w").write(s)
