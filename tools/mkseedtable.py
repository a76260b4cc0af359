#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | check | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/" + d + "/meta.json"))
    c = lambda x: str(x).replace("|", "/").replace("\n", " ")
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], c(m["what_it_breaks"]), c(m["needs"])))
p = V + "/DESIGN.md"; s = open(p).read(); t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = s.replace("SEEDTABLE", t) if "SEEDTABLE" in s else re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
