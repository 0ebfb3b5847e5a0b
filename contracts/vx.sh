#!/bin/bash
# dev helper: extract with given sidecars, run verus
cd /verif/contracts
/tmp/vx/xt/debug/extract ${REPO:-/repo} /tmp/vx/x.rs /tmp/vx/x.json 0*.rs ${SIDES:-s/*.vc} $EXTRA >/tmp/vx/ex.log 2>&1 || cat /tmp/vx/ex.log
echo 'fn main(){}' >> /tmp/vx/x.rs
python3 - <<'P'
import json
r=json.load(open('/tmp/vx/x.json'))
for p in r['problems']: print('PROBLEM',p)
for f in r['functions']:
    if f['problems'] or f['lost']: print(f['key'],f['problems'],f['lost'])
P
cd /tmp/vx; verus --edition=2024 x.rs "$@" 2>&1 | grep -v '^WARN'
