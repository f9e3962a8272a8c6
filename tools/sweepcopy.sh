#!/bin/bash
# sweepcopy.sh IDs...: applies planted bugs one after another to a copy of /repo under /tmp/w/sw and runs a copy of the check of each.
W=/tmp/w/sw
rm -rf /tmp/w/sw; mkdir -p $W; cp -a /verif/check.py /verif/harness /verif/known_findings.txt $W/; cp -a /repo $W/repo
sed -i "s#=> /repo#=> $W/repo#" $W/harness/go.mod; sed -i "s#^REPO = .*#REPO = \"$W/repo\"#" $W/check.py
cd $W
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C repo checkout -q -- . ; git -C repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  s=$(date +%s); python3 check.py $p > out.$id.txt 2>&1; rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -o 'VIOLATION property=C..' out.$id.txt)"
done
