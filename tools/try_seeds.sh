#!/bin/bash
# Runs the check of each planted change (or of the ids given) on a scratch copy with the change applied.
V=$(cd "$(dirname "$0")/.." && pwd)
for d in ${@:-$(ls $V/seeded)}; do
    W=$(mktemp -d /tmp/sw.XXXX)
    cp -a /repo/. $W/
    (cd $W && git apply $V/seeded/$d/patch.diff) || echo "no apply $d"
    P=$(python3 -c "import json;print(json.load(open('$V/seeded/$d/meta.json'))['property'])")
    S=$(date +%s)
    SV_REPO=$W timeout 900 python3 $V/check.py $P >/tmp/seed_$d.out 2>&1
    echo "$d $P rc=$? $(( $(date +%s) - S ))s $(grep VIOLATION /tmp/seed_$d.out | head -1)"
    rm -rf "$W"
done
