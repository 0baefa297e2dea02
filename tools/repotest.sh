#!/bin/bash
# developer aid: build and run the stable tests
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAILED; tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
m=set(b['stable'])-set(o['passed']); print("stable", len(b['stable']), "missing", len(m), sorted(m)[:5])
P
