#!/bin/sh
# run the repository's stable tests, print only what deviates from the baseline
bash /opt/vp/test.sh /tmp/o.json >/tmp/o.log 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
miss=[t for t in b['stable'] if t not in o['passed']]
print("passed %d, stable tests missing: %s" % (len(o['passed']), miss))
P
rm -f /tmp/o.json
cd /repo && git status --short
