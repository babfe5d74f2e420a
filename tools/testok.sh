#!/bin/bash
# build and run the stable tests; prints the stable tests that no longer pass
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || echo BUILD FAILED
bash /opt/vp/test.sh /tmp/t.json > /tmp/t.log 2>&1
python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=set(json.load(open('/tmp/t.json'))['passed'])
print('stable', len(b), 'failing now:', sorted(b-t))"
