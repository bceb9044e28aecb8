#!/bin/bash
# catch.sh <bug id> [property...]: applies a planted change to /repo, runs checks, undoes it.
cd "$(dirname "$0")/.." || exit 1
id=$1; shift; P=("$@"); [ ${#P[@]} = 0 ] && P=($(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])"))
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
trap "git -C /repo checkout -q -- ." EXIT
git -C /repo apply "$PWD/seeded/$id/patch.diff" || exit 1
for p in "${P[@]}"; do
  t=$(date +%s); o=$(./check.sh "$p" quick 2>&1); r=$?
  echo "$id $p rc=$r $(( $(date +%s)-t ))s $(printf '%s' "$o" | grep -E '^(run|minimised|VIOLATION|builds-differ|harness)' | cut -c1-220 | tr '\n' '|')"
done
git -C /repo checkout -- .
