#!/bin/bash
# tools/catch.sh [ID...]: apply each planted bug to /repo, run its property's check, undo. Prints one line per bug.
cd "$(dirname "$0")/.."
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
for d in seeded/*/; do
  id=$(basename "$d"); [ $# -gt 0 ] && [[ " $* " != *" $id "* ]] && continue
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
  s=$(date +%s); o=$(VERIF_SEED=1 VERIF_TIER=quick python3 check.py "$p" 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -c '^VIOLATION' <<<"$o") | $(grep -E '^(VIOLATION|what fails|note)' <<<"$o" | cut -c1-300 | tr '\n' ' ')"
done
