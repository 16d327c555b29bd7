#!/bin/bash
# runs the repository's tests and reports stable tests that do not pass
bash /opt/vp/test.sh /tmp/stable_out.json > /tmp/stable_log.txt 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/stable_out.json'))
bad=[t for t in b['stable'] if t not in set(o['passed'])]
print('stable not passing:', bad)
P
