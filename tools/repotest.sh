#!/bin/bash
# build /repo and check that its stable tests pass (development)
bash /opt/vp/build.sh >/tmp/rt_build.log 2>&1 || { tail -20 /tmp/rt_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/rt_out.json >/tmp/rt_test.log 2>&1
python3 - <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=set(json.load(open('/tmp/rt_out.json'))['passed'])
print(len(b&o),'of',len(b),'stable tests pass', sorted(b-o))
sys.exit(bool(b-o))
P
