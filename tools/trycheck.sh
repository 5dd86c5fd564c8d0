#!/bin/bash
# tools/trycheck.sh SEEDDIR... : apply to a scratch copy of /repo's sources, run the property's quick check on it
for d in "$@"; do d=$(realpath $d)
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
w=$(mktemp -d); mkdir $w/repo; git -C /repo archive HEAD | tar x -C $w/repo
(cd $w/repo && git init -q . && git apply $d/patch.diff) || { echo "$d: patch does not apply"; rm -rf "$w"; continue; }
o=$(cd /verif && VP_REPO=$w/repo timeout 900 python3-vt lsvc/check.py $p --tier quick 2>&1); rc=$?
rm -rf "$w"
echo "$(basename $d) $p rc=$rc $(echo "$o" | tail -1 | cut -c1-150)"
done
