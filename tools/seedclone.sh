#!/bin/bash
# seedclone.sh ID [PROPERTY..]: run the check(s) on a clone of /repo with a seeded change (the stable tests are not run).
id=$1; shift
here="$(cd "$(dirname "$0")/.." && pwd)"
props="$*"; [ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")
w=$(mktemp -d /tmp/seedclone.XXXXXX); trap 'rm -rf "$w"' EXIT
git clone -q /repo "$w/repo" && git -C "$w/repo" apply "$here/seeded/$id/patch.diff" || exit 2
for p in $props; do
  ( cd $here && VERIF_REPO="$w/repo" python3 run.py $p > "$w/out" 2>"$w/err"; rc=$?; echo "$id $p: exit $rc $(grep -c ^VIOLATION "$w/out") violations; $(grep -m1 '^  ' "$w/out" | cut -c1-200)"; [ $rc = 2 ] && tail -3 "$w/err" )
done
