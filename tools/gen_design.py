#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between the markers)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- seeded -->", "| bug | caught by | needs |", "|-----|-----------|-------|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"].replace("|", "/").replace("\n", " ")))
rows.append("<!-- /seeded -->")
p = V + "/DESIGN.md"
s = open(p).read()
t = "\n".join(rows)
s = s.replace("SEEDED_TABLE", t) if "SEEDED_TABLE" in s else re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
