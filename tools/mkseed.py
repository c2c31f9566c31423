#!/usr/bin/env python3
"""mkseed.py SPEC.json: makes seeded/<id>/ from {"id","property","needs","what_it_breaks","edits":[[file,old,new]],"demo":"C source"}"""
import json, os, subprocess, sys
V = "/verif"; R = "/repo"
DEMO_SH = '''#!/bin/bash
# Run in /repo after the build: exit 0 if the behaviour is right.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$t"' EXIT
%s -g -w -std=gnu11 -D_GNU_SOURCE -I _build/lib/include -I include "$d/demo.c" _build/lib/librcpr.a -lpthread %s -o "$t/demo" || exit 3
cd "$t" || exit 3
timeout 100 ./demo
'''
spec = {}
exec(open(sys.argv[1]).read(), spec)
d = os.path.join(V, "seeded", spec["id"])
os.makedirs(d, exist_ok=True)
assert subprocess.run(["git", "-C", R, "status", "--porcelain"], capture_output=True, text=True).stdout == "", "dirty /repo"
try:
    for f, old, new in spec["edits"]:
        p = os.path.join(R, f); s = open(p).read()
        base = subprocess.run(["git", "-C", R, "show", "c502ae5:" + f], capture_output=True, text=True).stdout
        for l in old.strip("\n").split("\n"):
            assert l in base, "not an original line: %r" % l
        assert s.count(old) == 1, "%s: %d occurrences of %r" % (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
finally:
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
open(os.path.join(d, "patch.diff"), "w").write(diff)
open(os.path.join(d, "demo.c"), "w").write(spec["demo"].lstrip("\n"))
p = os.path.join(d, "demo.sh")
open(p, "w").write(DEMO_SH % (spec.get("cc", "gcc"), spec.get("ldflags", "")))
os.chmod(p, 0o755)
json.dump({k: spec[k] for k in ("property", "needs", "what_it_breaks")}, open(os.path.join(d, "meta.json"), "w"), indent=1)
