#!/bin/bash
# recheck.sh ID...: applies each kept planted bug to /repo, runs its property's quick check, undoes it
cd "$(dirname "$0")/.."
for id in "$@"; do
    p=$(python3 -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")
    git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: DOES NOT APPLY"; continue; }
    out=$(bash check.sh $p quick 2>&1); rc=$?
    git -C /repo checkout -q -- .
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$p" <<<"$out"; then echo "$id $p CAUGHT: $(grep -a '^message\|^space' <<<"$out" | tr '\n' ' ' | cut -c1-220)"; else echo "$id $p MISSED rc=$rc"; fi
done
