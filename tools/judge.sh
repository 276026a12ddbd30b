#!/bin/bash
# judge.sh [ID ...]: applies each planted bug to /repo in turn and runs the check of its property
# (or those given in CHECKS); undoes it straight afterwards
here="$(cd "$(dirname "$0")/.." && pwd)"
cd "$here"
[ -z "$(git -C /repo status --short)" ] || { echo "/repo is not clean"; exit 2; }
for i in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" seeded/$i/meta.json)
  git -C /repo apply "$here/seeded/$i/patch.diff" || { echo "$i does not apply"; continue; }
  for c in ${CHECKS:-$p}; do
    out=$(VERIF_SEED=1 bin/check $c 2>&1); rc=$?
    echo "$i $c rc=$rc $(echo "$out" | grep -m1 violated | cut -c1-150)"
  done
  git -C /repo checkout -q -- .
done
