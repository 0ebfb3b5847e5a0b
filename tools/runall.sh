#!/bin/bash
# run every registered check on TOON_REPO (default /repo) and print verdicts and what stayed undecided
cd "$(dirname "$0")/.."
for p in $(python3 -c "import json;print(*[c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
  python3 check.py $p > /tmp/runall.$p 2>&1; rc=$?
  echo "$p rc=$rc $(grep -c '^note' /tmp/runall.$p) notes; $(grep "^$p:" /tmp/runall.$p)"; grep '^note\|VIOLATION\|what fails' /tmp/runall.$p | cut -c1-300
done
