#!/bin/bash
# mkpatch.sh ID FILE 'python: t=t.replace(..)' [FILE PY]...: writes seeded/ID/patch.diff from edits of /repo, which is restored
ID=$1; shift; mkdir -p /verif/seeded/$ID; cd /repo || exit 2
[ -z "$(git status --short)" ] || { echo "/repo is not clean"; exit 2; }
while [ $# -ge 2 ]; do
F=$1 python3 -c "
import os
p=os.environ['F']; t=open(p).read(); o=t
$2
assert t!=o, 'no change'
open(p,'w').write(t)" || { git checkout -q -- .; exit 1; }
shift 2; done
git diff > /verif/seeded/$ID/patch.diff; git checkout -q -- .
cat /verif/seeded/$ID/patch.diff | grep '^[+-]'
