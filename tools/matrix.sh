#!/bin/bash
# matrix.sh [ids...] : run each planted bug's own property check against a scratch copy of /repo with the bug applied.
cd "$(dirname "$0")/.."
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  w=/tmp/mx-$s; rm -rf "/tmp/mx-$s"; cp -a /repo $w; git -C $w checkout -q -- .; git -C $w apply $PWD/seeded/$s/patch.diff || echo "NOAPPLY $s"
  t0=$(date +%s); out=$(VERIF_REPO=$w timeout 900 ./check.py --property $p 2>&1); rc=$?
  echo "$s $p rc=$rc $(( $(date +%s) - t0 ))s $(echo "$out" | grep 'failed clauses' | sort | uniq -c | sort -rn | head -2 | tr '\n' ';')"
  [ $rc = 1 ] || echo "$out" | tail -5
  rm -rf "/tmp/mx-$s"
done
