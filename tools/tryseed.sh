#!/bin/bash
# tryseed.sh [--notest] ID...: plants each bug in /repo, runs tests, demo and the property's check, and undoes it
T=1; [ "$1" = --notest ] && { T=0; shift; }
V=/verif
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
[ $# -eq 0 ] && set -- $(ls $V/seeded)
for id in "$@"; do
  d=$V/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /repo && bash $d/demo.sh >/tmp/demo0.log 2>&1); d0=$?
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  (cd /repo && bash $d/demo.sh >/tmp/demo1.log 2>&1); d1=$?
  t=skip
  if [ $T = 1 ]; then
    bash /opt/vp/test.sh /tmp/seedtest.json >/tmp/seedtest.log 2>&1
    t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seedtest.json'))
def ps(x):
    for k in ('passed','stable','tests','pass'):
        if k in x: return set(x[k]) if not isinstance(x[k], dict) else set(x[k])
    return set()
m=ps(b)-ps(r)
print('ok' if not m and ps(b) else 'BROKEN %s'%list(m)[:3])
P
)
  fi
  s=$(date +%s)
  (cd $V && python3 check.py $prop --tier quick >/tmp/seedcheck_$id.log 2>&1); c=$?
  e=$(date +%s)
  v=$(grep -c "^VIOLATION property=$prop" /tmp/seedcheck_$id.log)
  git -C /repo checkout -q -- .
  ok=MISSED; [ $c = 1 ] && [ $v = 1 ] && ok=caught
  echo "$id $prop demo $d0/$d1 tests $t check rc=$c $((e-s))s $ok"
done
