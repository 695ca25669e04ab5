#!/bin/bash
# the repository's tests against the baseline of this sandbox (development helper)
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1; tail -1 /tmp/t.log | cut -c1-200
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
base=set(b.get('passed') or b.get('tests') or b.get('stable') or [])
print('baseline',len(base),'missing', sorted(base-set(o['passed'])))
P
