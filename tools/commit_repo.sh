#!/bin/bash
# usage: commit_repo.sh "fix: ..." : test then commit
cd /repo; for f in $(git diff --name-only); do rustfmt --edition 2021 --check $f >/dev/null 2>&1 || echo "fmt differs $f"; done
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def ids(x):
    if isinstance(x,dict):
        for k in ('passed','pass','stable','tests'):
            if k in x: return set(x[k])
    return set(x)
bp=ids(b); tp=ids(t)
print('baseline',len(bp),'passed',len(tp),'missing',len(bp-tp), list(bp-tp)[:10])
open('/tmp/t.ok','w').write('1' if not (bp-tp) else '0')
P
if [ "$(cat /tmp/t.ok)" = 1 ]; then git -C /repo commit -qam "$1" && git -C /repo log --format='%h %s' -1; else echo NOT COMMITTED; fi
