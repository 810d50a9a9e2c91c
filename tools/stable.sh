#!/bin/bash
# build + run the repository's tests, report stable tests that do not pass
bash /opt/vp/build.sh >/tmp/stable_build.log 2>&1 || { tail -40 /tmp/stable_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/stable.json >/tmp/stable_test.log 2>&1
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/stable.json'))
p=set(o['passed']); bad=[t for t in b['stable'] if t not in p]
print('passed',len(p),'failed',o.get('failed'), 'STABLE BROKEN:' if bad else 'stable ok', bad)
sys.exit(1 if bad else 0)
P
