#!/bin/bash
# runs the suite on /repo's working tree and compares with the stable baseline
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/suite.json >/tmp/suite.log 2>&1
/opt/venv/bin/python - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/suite.json'))
p=set(r.get('passed',[])); st=set(b['stable'])
miss=sorted(st-p)
print('passed',len(p),'stable',len(st),'missing',len(miss)); print(miss[:10])
PY
