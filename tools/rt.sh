#!/bin/bash
# Development helper: rebuild /repo and run its tests; prints passed/failed counts.
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAILED; tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
bp=set(b.get('passed') or b.get('stable'));m=bp-set(o['passed']);print('passed',len(o['passed']),'missing',len(m),sorted(m)[:10])
P
git -C /repo status --short
