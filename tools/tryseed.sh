#!/bin/bash
# tryseed.sh ID...: apply seeded/<ID>/patch.diff to /repo, build, run the stable tests, the demo and the property's check; undo
cd /verif
for id in "$@"; do
  d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo dirty"; exit 1; }
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/ts.build 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/ts.json >/tmp/ts.test 2>&1
  t=$(python3 - <<'P'
import json
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
r=json.load(open('/tmp/ts.json')); p=set(r.get('passed',[]))
print("lost %d" % len(base-p) if base else "passed %d" % len(p))
P
)
  (cd /repo && timeout 300 bash $d/demo.sh >/tmp/ts.demo 2>&1); dm=$?
  o=$(timeout 900 python3 check.py ${CHECK:-$prop} 2>&1); c=$?
  git -C /repo checkout -q -- .
  bash /opt/vp/build.sh >/tmp/ts.build2 2>&1
  (cd /repo && timeout 300 bash $d/demo.sh >/tmp/ts.demo0 2>&1); d0=$?
  echo "$id $prop build=$b tests: $t demo(bug)=$dm demo(clean)=$d0 check=$c $(echo "$o" | grep -m1 ' at ' | cut -c1-160)"
done
