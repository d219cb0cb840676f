#!/bin/bash
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json; python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/o.json'))
s=set(b.get('passed') or b.get('stable') or b.get('stable_passed') or [])
print(list(b), len(s), 'missing:', sorted(s-set(o['passed'])))"
