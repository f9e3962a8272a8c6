#!/bin/bash
# fc.sh MSG : gofmt check, test, commit
cd /repo
bash /opt/vp/build.sh || exit 1
bash /opt/vp/test.sh /tmp/w/out.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/w/out.json'))
stable=set(b.get('stable',b.get('passing',b if isinstance(b,list) else [])))
p=set(o.get('passed',[]))
miss=stable-p
print(len(stable),len(p),'missing:',sorted(miss)[:10])
import sys; sys.exit(1 if miss else 0)
P
[ $? = 0 ] || { echo FAIL; exit 1; }
git commit -qam "$1" && git log --oneline | head -1
