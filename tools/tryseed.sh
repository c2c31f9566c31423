#!/bin/bash
# tryseed.sh ID [full]: demo without and with the patch, then the property's quick check with it.
id=$1; d=/verif/seeded/$id
cd /repo || exit 9
[ -z "$(git status --porcelain)" ] || { echo dirty; exit 9; }
bash /opt/vp/build.sh >/tmp/ts.log 2>&1 || { echo "BASE BUILD FAILED"; exit 9; }
bash $d/demo.sh >/tmp/ts.demo0 2>&1; a=$?
git apply $d/patch.diff || exit 9
bash /opt/vp/build.sh >/tmp/ts.log 2>&1 || echo "BUILD FAILED"
bash $d/demo.sh >/tmp/ts.demo1 2>&1; b=$?
st=skipped
if [ "$2" = full ]; then bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1; st=$(python3 /tmp/w/base.py); fi
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /verif; timeout 900 python3 bin/check.py $prop >/tmp/ts.check 2>&1; c=$?
git -C /repo checkout -q -- .
echo "$id [$prop] demo clean=$a (want 0) patched=$b (want !=0) check=$c (want 1) tests: $st"
[ $c = 1 ] && grep -v '^$' /tmp/ts.check | head -1 | cut -c1-200
