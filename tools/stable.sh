#!/bin/bash
# Build /repo's working tree and run the stable tests.
cd /repo; bash /opt/vp/build.sh >/tmp/bb.log 2>&1 || { tail -20 /tmp/bb.log; exit 1; }; bash /opt/vp/test.sh /tmp/t.json >/tmp/tt.log 2>&1; python3 - <<'Q'
import json
a=json.load(open('/tmp/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=set(b['stable'])-set(a['passed']); print("stable missing:",m, "passed",len(a['passed']))
Q
