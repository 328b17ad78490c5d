#!/bin/bash
# do the repository's stable tests still pass?
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || echo BUILD FAILED
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
m=[t for t in b['stable'] if t not in o['passed']]
print('missing:', m) if m else print('all', len(b['stable']), 'stable pass')"
