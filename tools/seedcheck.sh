#!/bin/bash
# seedcheck.sh [ID...]: apply each planted bug to a scratch copy and run its property's check there.
cd /verif/seeded
ids=${@:-$(ls)}
for id in $ids; do
  pid=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
  w=$(mktemp -d /tmp/seedcheck.XXXXXX)
  git clone -q /repo "$w/repo" && git -C "$w/repo" apply "/verif/seeded/$id/patch.diff" || echo "APPLY FAILED $id"
  out=$(cd /verif && VERIF_REPO="$w/repo" VERIF_NOEVIDENCE=1 VERIF_SEED=${VERIF_SEED:-1} python3 run.py "$pid" 2>&1); rc=$?
  echo "$id $pid rc=$rc $(echo "$out" | grep -E 'VIOLATION|CHECK-ERROR|^OK' | head -1 | cut -c1-150)"
  rm -rf -- "$w"
done
