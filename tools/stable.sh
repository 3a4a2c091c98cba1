#!/bin/bash
# run the repo's tests and compare with the baseline of stable tests
bash /opt/vp/test.sh /tmp/stable.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/stable.json'))
def names(x):
    for k in ('passed','stable','tests'):
        if k in x:
            v=x[k]
            return set(v if isinstance(v,list) else [n for n in v])
    return set()
p=set(t.get('passed',[])); want=names(b)
print('baseline',len(want),'passed',len(p),'missing',sorted(want-p)[:10])
P
