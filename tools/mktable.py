#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | what it needs in order to manifest | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "\\|"), m.get("caught_by", m["property"])))
d = open(V + "/DESIGN.md").read()
d = re.sub(r"<!-- seeded -->.*<!-- /seeded -->|@SEEDED@", lambda _: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", d, flags=re.S)
open(V + "/DESIGN.md", "w").write(d)
