#!/bin/bash
# build /repo and run its stable tests; prints any stable test that did not pass
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -30 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/tt.log 2>&1
python3 - <<'P'
import json
t=json.load(open('/tmp/t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
miss=[x for x in b['stable'] if x not in set(t['passed'])]
print('stable', len(b['stable']), 'missing', miss, 'failed', t['failed'])
P
