#!/bin/bash
# tools/trybugs.sh [--seconds=N] ID...: applies each planted bug, runs the check of its property, undoes it.
sec=45
case "${1:-}" in --seconds=*) sec="${1#*=}"; shift;; esac
cd "$(dirname "$0")/.."
for b in "$@"; do
  b=$(basename "$b")
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$b/patch.diff" || { echo "$b: does not apply"; continue; }
  s=$SECONDS
  out=$(./check.sh "$p" quick --seconds=$sec 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$b $p rc=$rc $((SECONDS-s))s $(echo "$out" | grep -m1 -E 'VIOLATION|^[a-z].*class|violation' | cut -c1-200)"
done
