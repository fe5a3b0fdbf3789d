#!/bin/bash
# tools/seed.sh ID...: developer tool. Confirms a planted bug (builds, stable tests pass, demo fails with it and
# passes without it) and tells whether the property's check reports it. Leaves /repo as it was.
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
  bash /opt/vp/build.sh >/dev/null 2>&1
  clean=$( cd /repo && bash $d/demo.sh >/tmp/demo.clean 2>&1; echo $? )
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/seed.build 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/seed.t.json >/dev/null 2>&1
  t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));p=set(json.load(open('/tmp/seed.t.json'))['passed'])
print(len([x for x in b['stable'] if x not in p]))")
  bug=$( cd /repo && bash $d/demo.sh >/tmp/demo.bug 2>&1; echo $? )
  s=$SECONDS
  out=$(cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 check.py $prop 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id prop=$prop build=$b tests_broken=$t demo_clean=$clean demo_bug=$bug check_rc=$rc ($((SECONDS-s))s)"
  [ $rc = 1 ] || echo "$out" | tail -3
  [ $rc = 1 ] && echo "$out" | head -1
done
bash /opt/vp/build.sh >/dev/null 2>&1
