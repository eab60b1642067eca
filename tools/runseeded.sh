#!/bin/bash
# runseeded.sh [ids..]   run each planted change's own check on /repo with the change applied
cd /verif || exit 3
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 3; }
trap 'git -C /repo checkout -q -- .' EXIT
for d in ${@:-$(ls seeded)}; do
  P=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d APPLY-FAILED"; continue; }
  S=$SECONDS; OUT=$(./check.sh ${ALLP:-$P} 2>&1); RC=$?
  echo "$d $P rc=$RC $((SECONDS-S))s $(grep -c VIOLATION <<<"$OUT") $(grep -m1 -B1 VIOLATION <<<"$OUT" | head -1 | cut -c1-140)"
  git -C /repo checkout -q -- .
done
