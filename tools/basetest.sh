#!/bin/bash
# rebuild /repo and compare the stable tests with the baseline
find /repo/_build -name "*.gcda" -delete   # stale coverage data makes libgcov print into the test listing
bash /opt/vp/build.sh >/tmp/bt.log 2>&1 || { tail -5 /tmp/bt.log; exit 1; }
bash /opt/vp/test.sh /tmp/bt.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/bt.json'))
base=b.get('passed') or b.get('stable') or b.get('tests')
miss=[x for x in base if x not in set(o['passed'])]
print(len(base),'baseline; missing:',miss)
P
