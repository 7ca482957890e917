#!/bin/bash
# usage: tools/seedtest.sh ID...   applies each seeded change to /repo, runs tests, demo and its property's check, undoes it
cd "$(dirname "$0")/.." || exit 2
for id in "$@"; do
  d=seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 2; }
  (cd /repo && bash /verif/$d/demo.sh) >/tmp/seed.$id.demo0 2>&1; d0=$?
  git -C /repo apply /verif/$d/patch.diff || { echo "$id: does not apply"; continue; }
  t=skip
  if [ -z "$NOTEST" ]; then
    bash /opt/vp/test.sh /tmp/seed.$id.json >/tmp/seed.$id.test 2>&1
    t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed.$id.json'))
names=b.get('stable') or b.get('passed') or b.get('tests') or b
p=o.get('passed') if isinstance(o,dict) else o
p=set(p)
miss=[n for n in names if n not in p]
print('ok' if not miss else 'FAILS %d %s'%(len(miss),miss[:2]))
P
)
  fi
  (cd /repo && bash /verif/$d/demo.sh) >/tmp/seed.$id.demo1 2>&1; d1=$?
  [ -n "$NOCHECK" ] || { ./run ${P:-$p} > /tmp/seed.$id.check 2>&1; c=$?; }
  git -C /repo checkout -- . ; git -C /repo clean -fdq
  echo "$id ($p): tests=$t demo clean=$d0 patched=$d1 check=$c $(grep -m1 '^VIOLATION' /tmp/seed.$id.check | cut -c1-60)"
done
