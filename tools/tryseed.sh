#!/bin/bash
# tryseed.sh ID...: for each planted change: demo on the clean tree, build + stable tests + demo + check on the changed tree
cd /verif
for id in "$@"; do
  p=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$p/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 1; }
  bash /opt/vp/build.sh >/tmp/ts.log 2>&1
  (cd /repo && bash $p/demo.sh >/tmp/ts.demo0 2>&1); d0=$?
  git -C /repo apply $p/patch.diff || { echo "$id: patch does not apply"; continue; }
  b=1; bash /opt/vp/build.sh >/tmp/ts.log 2>&1 && b=0
  t=$(bash /opt/vp/test.sh /tmp/ts.json 2>/dev/null | tail -1)
  ok=$(python3 -c "
import json
o=json.load(open('/tmp/ts.json'));b=json.load(open('/opt/vp/BASELINE.json'))
s=[x if isinstance(x,str) else x.get('id') for x in b['stable']]
print(len(set(s)-set(o['passed'])))")
  (cd /repo && bash $p/demo.sh >/tmp/ts.demo1 2>&1); d1=$?
  VERIF_SEED=1 python3 run.py $prop >/tmp/ts.chk 2>&1; c=$?
  git -C /repo checkout -- .
  echo "$id [$prop] build=$b stable-missing=$ok demo clean=$d0 changed=$d1 check=$c $(grep -c '^VIOLATION' /tmp/ts.chk) | $(grep '^scenario' /tmp/ts.chk | cut -c1-220)"
done
bash /opt/vp/build.sh >/tmp/ts.log 2>&1
