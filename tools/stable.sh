#!/bin/bash
# rebuild /repo and check that all stable tests pass
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -30 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/t.json'))
m=[x for x in b['stable'] if x not in t['passed']]
print('missing:',m,'passed',len(t['passed'])); raise SystemExit(1 if m else 0)"
