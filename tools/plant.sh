#!/bin/bash
# plant.sh ID: try the planted bug seeded/ID (patch.diff, demo.sh, meta.json): builds, tests, demo with and without it, its check.
# /repo must be clean; it is restored afterwards.
ID=$1; D=/verif/seeded/$ID; [ -f $D/patch.diff ] || { echo "no $D"; exit 2; }
[ -z "$(git -C /repo status --short)" ] || { echo "/repo is not clean"; exit 2; }
T=$(mktemp -d); cp -a $D $T/x; rm -f $T/x/patch.diff $T/x/meta.json
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1; rm -rf "$T"' EXIT
bash /opt/vp/build.sh >/dev/null 2>&1
(cd /repo && timeout 300 bash $T/x/demo.sh >$T/o 2>&1); a=$?; [ $a = 0 ] || { tail -5 $T/o; }
git -C /repo apply $D/patch.diff || exit 2
S=$(bash /verif/tools/stable.sh 2>&1 | tail -1)
(cd /repo && timeout 300 bash $T/x/demo.sh >$T/o 2>&1); b=$?; tail -2 $T/o
cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 sim/check.py $P >$T/c 2>&1; c=$?
echo "$ID property=$P demo clean=$a (0) patched=$b (!=0) stable: $S check=$c (1)"; grep -a "^violation\|^VIOLATION\|ERROR" $T/c | cut -c1-300 | head -3; tail -1 $T/c
