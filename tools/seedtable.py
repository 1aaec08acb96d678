#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = json.load(open(os.path.join(V, "tools", "missed.json")))
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), MISSED.get(d, "yes")))
t = "<!-- seeds -->\n| planted bug | property and check | needs | caught |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = open(V + "/DESIGN.md").read()
if "<!-- seeds -->" in s:
    s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: t, s, flags=re.S)
else:
    s = s.replace("PLACEHOLDER6", "Every bug below builds, passes the repository's tests and has a demonstration. The check named is the one of its property; 'missed at first' means the check was strengthened afterwards.\n\n" + t + "\n")
open(V + "/DESIGN.md", "w").write(s)
