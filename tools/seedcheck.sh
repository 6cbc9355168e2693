#!/bin/bash
# seedcheck.sh ID [PROPERTY..]: apply a seeded change to /repo, build, run the stable tests and the check(s), undo.
id=$1; shift
here="$(cd "$(dirname "$0")/.." && pwd)"
props="$*"; [ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
git -C /repo apply "$here/seeded/$id/patch.diff" || exit 2
bash /opt/vp/test.sh /tmp/seed-$id.json > /tmp/seed-$id.log 2>&1
python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=set(json.load(open('/tmp/seed-$id.json'))['passed'])
print("$id: stable tests:", "pass" if b<=t else "FAIL %s" % sorted(b-t)[:3])
P
( cd /repo && timeout 300 bash $here/seeded/$id/demo.sh >/dev/null 2>&1 && echo "$id: demo does NOT fail" )
for p in $props; do
  ( cd $here && python3 run.py $p > /tmp/seed-$id-$p.out 2>/tmp/seed-$id-$p.err; rc=$?; echo "$id $p: exit $rc $(grep -c ^VIOLATION /tmp/seed-$id-$p.out) violations; $(grep -m1 '^  ' /tmp/seed-$id-$p.out | cut -c1-200)"; [ $rc = 2 ] && tail -3 /tmp/seed-$id-$p.err )
done
