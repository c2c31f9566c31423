#!/usr/bin/env python3
"""Builds the library variants and every harness once, so that the checks start quickly."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vpbuild
from specs import SPECS
from concurrent.futures import ThreadPoolExecutor
todo = sorted({(r["h"], r["v"]) for s in SPECS.values() for r in s["runs"]})
for v in sorted({v for _, v in todo}):
    vpbuild.build_lib(v)
with ThreadPoolExecutor(4) as ex:
    for f in [ex.submit(vpbuild.build_harness, h, v) for h, v in todo]:
        f.result()
print("built %d harnesses" % len(todo))
