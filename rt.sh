#!/bin/bash
# development aid: rebuild /repo and compare the stable tests with the baseline
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/tt.log 2>&1
python3 - <<'PY'
import json
a=json.load(open('/tmp/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=set(b['stable'])-set(a['passed'])
print("stable", len(b['stable']), "missing", sorted(m)[:10])
PY
