#!/bin/bash
# catch.sh [id...]: applies each planted change to /repo in turn, runs the check of its property, undoes it.
here=$(cd "$(dirname "$0")/.." && pwd)
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in ${@:-$(ls "$here/seeded")}; do
  p=$(python3 -c "import json,sys; print(json.load(open(sys.argv[1]))['property'])" "$here/seeded/$id/meta.json")
  git -C /repo apply "$here/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  out=$("$here/check.sh" "${CHECK:-$p}" quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id ${CHECK:-$p}: exit $rc $(echo "$out" | grep -m1 "VIOLATION") $(echo "$out" | grep -v VIOLATION | head -1 | cut -c1-160)"
done
