#!/bin/bash
# mutcheck.sh ID [check ids...]: apply seeded/ID to /tmp/mut and run its property's check (or the given ones) against it
V=$(dirname "$(dirname "$(readlink -f "$0")")")
ID=$1; shift
git -C /tmp/mut checkout -q -- . && git -C /tmp/mut apply "$V/seeded/$ID/patch.diff" || exit 9
P=${@:-$(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")}
for p in $P; do
  s=$(date +%s)
  out=$(cd "$V" && VERIF_REPO=/tmp/mut python3 check.py "$p" 2>&1); rc=$?
  echo "$ID $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 -E "^$p: |HARNESS" | cut -c1-160)"
done
git -C /tmp/mut checkout -q -- .
