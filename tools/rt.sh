#!/bin/bash
# run the project's tests in a tree (default /repo); prints regressions against the baseline
bash /opt/vp/test.sh /tmp/o.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
a=json.load(open('/tmp/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
st=b.get('stable') or b.get('passed') or b
miss=[t for t in st if t not in a['passed']]
print(len(a['passed']),'passed',len(a['failed']),'failed; missing from baseline:',miss[:10])
P
