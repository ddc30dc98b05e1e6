#!/bin/bash
# seedtest.sh ID [property ...]: confirm a planted bug (demo passes without, fails with; stable tests pass) in a scratch copy
# mounted at /repo inside a private mount namespace, and run the checks of the properties against it.
ID=$1; shift
if [ -z "$SEED_NS" ]; then
    W=$(mktemp -d /tmp/seedtest.XXXXXX)
    cp -a /repo/. "$W/repo" 2>/dev/null || { mkdir -p "$W/repo"; cp -a /repo/. "$W/repo/"; }
    mkdir -p "$W/out"; cp -r /verif/seeded/$ID "$W/out/seed"
    SEED_NS=1 W=$W unshare -m bash "$0" "$ID" "$@"; rc=$?
    rm -rf "$W"
    exit $rc
fi
mount --bind "$W/repo" /repo || exit 9
cd /repo || exit 9
bash /opt/vp/build.sh > $W/out/build0 2>&1 || { echo "base build failed"; exit 9; }
timeout 300 bash $W/out/seed/demo.sh > $W/out/demo0 2>&1; d0=$?
git apply $W/out/seed/patch.diff || { echo "$ID: patch does not apply"; exit 9; }
bash /opt/vp/build.sh > $W/out/build1 2>&1 || { echo "$ID: build failed"; tail -5 $W/out/build1; exit 9; }
timeout 300 bash $W/out/seed/demo.sh > $W/out/demo1 2>&1; d1=$?
t=skipped
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh $W/out/t.json > $W/out/test.log 2>&1
t=$(python3 -c "
import json
p=set(json.load(open('$W/out/t.json'))['passed']); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
m=[x for x in b if x not in p]; print('tests OK' if not m else 'TESTS FAIL: '+', '.join(m[:5]))")
fi
echo "$ID: demo unchanged=$d0 patched=$d1; $t"
[ $d0 = 0 ] || tail -5 $W/out/demo0
[ $d1 != 0 ] && tail -2 $W/out/demo1
for p in "$@"; do
    cd /verif; python3-vt check.py $p > $W/out/chk.$p 2>&1; rc=$?
    echo "  check $p rc=$rc: $(grep -m3 -E 'VIOLATION|failed obligation|bounded' $W/out/chk.$p | cut -c1-300 | tr '\n' ';')"
    [ -n "$SHOW" ] && cat $W/out/chk.$p
done
