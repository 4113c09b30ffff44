#!/bin/bash
# seedtest.sh SLOT ID [nocheck]: validates seeded/ID in a copy of /repo bind-mounted over /repo in a
# private namespace: it must apply, build, pass the stable tests, and its demonstration must tell
# the two trees apart; then runs the check of its property on the changed tree.
slot=/tmp/slot$1 id=$2
if [ "$INNER" != 1 ]; then
    mkdir -p "$slot"
    [ -d "$slot/repo" ] || cp -a /repo "$slot/repo"
    INNER=1 exec unshare -Urm "$0" "$@"
fi
mount --bind "$slot/repo" /repo || exit 9
cd /repo || exit 9
dir=/verif/seeded/$id
git checkout -q -- . ; git fetch -q /nonexistent 2>/dev/null
prop=$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
git apply "$dir/patch.diff" || { echo "$id: does not apply"; exit 1; }
bash /opt/vp/build.sh > "$slot/build.log" 2>&1 || { echo "$id: does not build"; grep -m3 error: "$slot/build.log"; git checkout -q -- .; exit 1; }
bash /opt/vp/test.sh "$slot/out.json" > "$slot/test.log" 2>&1
miss=$(python3 - "$slot/out.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
print(' '.join(t for t in b['stable'] if t not in o['passed']))
P
)
[ -n "$miss" ] && echo "$id: FAILS TESTS $miss" | cut -c1-300
timeout 300 bash "$dir/demo.sh" > "$slot/demo1.log" 2>&1; d1=$?
if [ "$3" != nocheck ]; then
    VERIF_SEED=${SEED:-1} VERIF_BUILD=$slot/vb timeout 900 python3 /verif/run.py ${CHK:-$prop} --tier quick > "$slot/check.log" 2>&1; c=$?
    v=$(grep -c "VIOLATION property=" "$slot/check.log")
fi
git checkout -q -- .
bash /opt/vp/build.sh > "$slot/build.log" 2>&1
timeout 300 bash "$dir/demo.sh" > "$slot/demo0.log" 2>&1; d0=$?
echo "$id: demo changed=$d1 unchanged=$d0 check=$c violations=$v $(grep -m1 -B1 VIOLATION "$slot/check.log" | head -1 | cut -c1-200)"
