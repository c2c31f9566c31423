#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property, caught by | needs | breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded"), key=lambda d: (json.load(open(V + "/seeded/%s/meta.json" % d))["property"], d)):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s%s | %s | %s |" % (d, m["property"], m.get("also", "") and ", " + m["also"], m["needs"], m["what_it_breaks"]))
p = V + "/DESIGN.md"
s = open(p).read()
a, rest = s.split("<!-- seeds -->", 1)
b = rest.split("<!-- /seeds -->", 1)[1]
open(p, "w").write(a + "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->" + b)
print(len(rows) - 2, "seeds")
