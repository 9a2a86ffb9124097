#!/bin/bash
# runseeds.sh [seed ids..] [-- property ids] : runs each planted bug's own check (or the given checks) against a scratch copy of /repo with the bug
V="$(cd "$(dirname "$0")/.." && pwd)"; cd "$V"
S=(); P=(); m=0; for a in "$@"; do if [ "$a" = -- ]; then m=1; elif [ $m = 0 ]; then S+=("$a"); else P+=("$a"); fi; done
[ ${#S[@]} = 0 ] && S=($(ls seeded))
for s in "${S[@]}"; do
  W=$(mktemp -d /tmp/seedrun.XXXXXX); git -C /repo archive HEAD | tar x -C $W; (cd $W && git apply "$V/seeded/$s/patch.diff") || { echo "$s: patch does not apply"; rm -rf "$W"; continue; }
  props=("${P[@]}"); [ ${#props[@]} = 0 ] && props=($(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])"))
  for p in "${props[@]}"; do
    o=$(SYMX_REPO=$W python3 check.py $p --tier quick 2>&1); rc=$?
    echo "$s $p rc=$rc $(echo "$o" | grep -a VIOLATION | head -1 | cut -c1-180)"; [ $rc != 1 ] && echo "$o" | tail -4
  done
  rm -rf "$W"
done
