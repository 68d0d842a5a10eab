#!/bin/bash
# runseeds [ID...]: applies each planted bug to /repo, runs its check, undoes it.
cd "$(dirname "$0")/.."
[ $# -eq 0 ] && set -- $(ls seeded)
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply $PWD/seeded/$s/patch.diff || { echo "$s DOES NOT APPLY"; continue; }
  out=$(./check $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$s $p rc=$rc $(echo "$out" | grep VIOLATION | sed 's/replay=[^ ]*//') $(echo "$out" | grep -c 'obligation not discharged') failed obligations"
done
