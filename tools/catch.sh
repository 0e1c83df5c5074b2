#!/bin/bash
# catch.sh ID [CHECK..]: apply seeded/ID to /repo, run the check of its property (or the given ones), undo.
S=/verif/seeded/$1; shift_=$1; shift
cd /verif
[ -n "$(git -C /repo status --porcelain --untracked-files=no)" ] && { echo "/repo not clean"; exit 2; }
C="$@"; [ -z "$C" ] && C=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
git -C /repo apply $S/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for c in $C; do
  s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick python3 check.py $c >/tmp/catch-$c.log 2>&1; rc=$?
  echo "$shift_ $c rc=$rc $(( $(date +%s)-s ))s $(grep -m1 ^VIOLATION /tmp/catch-$c.log | cut -c1-160)"
done
