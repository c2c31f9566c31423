#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from specs import SPECS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in SPECS: continue
    s = SPECS[i]
    checks.append(dict(property=i, quick_cmd="python3 bin/check.py %s --tier quick" % i, thorough_cmd="python3 bin/check.py %s --tier thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique=s["technique"], level=s.get("level", "exploration"), level_note=s["note"]))
m = dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks,
         not_applicable=[dict(property=i, reason="the check for this property is not built yet") for i in ids if i not in SPECS],
         notes="Every check builds the library from /repo's working tree (outside /repo), links it with a harness from harness/ and searches generated cases; see DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
