#!/bin/bash
# try_bug.sh ID: apply seeded/ID/patch.diff to /repo, run the check of its property, undo. (For development.)
V=/verif; id=$1; shift
P=$(python3 -c "import json,sys;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
git -C /repo apply $V/seeded/$id/patch.diff || exit 3
trap 'git -C /repo checkout -- .' EXIT
for p in ${@:-$P}; do (cd $V && python3 tools/check.py $p | tail -4); done
