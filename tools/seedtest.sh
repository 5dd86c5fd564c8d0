#!/bin/bash
# tools/seedtest.sh SEEDDIR : confirm a planted change in a scratch copy of /repo
# (applies, builds, stable tests pass, demo passes before and fails after)
set -u
d=$(realpath "$1"); w=/tmp/seedtest.$$; mkdir -p $w/demo
cleanup() { rm -rf "$w"; }
trap cleanup EXIT
cp $d/* $w/demo/; rm -f $w/demo/*.diff $w/demo/meta.json
# demos name /repo: run inside a user+mount namespace where /repo is the copy
cp -a /repo $w/repo
run() { unshare -Urm bash -c "mount --bind $w/repo /repo && cd /repo && $1"; }
git -C $w/repo checkout -q -- . 
if [ -z "${SKIPCLEAN:-}" ]; then
run "bash /opt/vp/build.sh >$w/b0.log 2>&1" || { echo "BASE BUILD FAILED"; exit 1; }
run "timeout 300 bash $w/demo/demo.sh >$w/d0.log 2>&1"; r0=$?
[ $r0 = 0 ] || { echo "DEMO FAILS ON CLEAN TREE rc=$r0"; tail -5 $w/d0.log; exit 1; }
fi
git -C $w/repo apply $d/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
run "bash /opt/vp/test.sh $w/t.json >$w/b1.log 2>&1" || { echo "BUILD FAILED"; tail -5 $w/b1.log; exit 1; }
python3 - $w/t.json <<'P' || exit 1
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
st=b if isinstance(b,list) else b.get('stable') or b.get('passed') or b.get('tests')
miss=[x for x in st if x not in t['passed']]
if miss: print('TESTS FAIL WITH PATCH', miss); sys.exit(1)
P
run "timeout 300 bash $w/demo/demo.sh >$w/d1.log 2>&1"; r1=$?
[ $r1 != 0 ] || { echo "DEMO PASSES WITH PATCH"; exit 1; }
echo "SEED OK $(basename $d) (demo rc with patch $r1: $(tail -1 $w/d1.log | cut -c1-150))"
