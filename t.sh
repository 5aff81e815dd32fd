#!/bin/bash
# run repo tests and compare to baseline
bash /opt/vp/test.sh /tmp/res.json > /tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));r=json.load(open('/tmp/res.json'))
print(r.keys())
p=set(r.get('passed',r.get('pass',[])))
m=[x for x in b['stable'] if x not in p]
print(len(b['stable']),'stable; not passing:',len(m),m[:20])
P
