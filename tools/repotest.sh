#!/bin/bash
bash /opt/vp/test.sh /tmp/rt.json >/tmp/rt.log 2>&1; python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/rt.json'))
print(len(b), 'missing:', sorted(b-set(o['passed'])))
P
