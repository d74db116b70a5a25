#!/bin/bash
# For each seeded change (default all): demo on clean tree, applies, builds, tests, demo fails, and what the property's check says.
cd /verif
[ -n "$(git -C /repo status --porcelain --untracked-files=no)" ] && { echo /repo not clean; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for d in ${@:-$(ls seeded)}; do
  id=$(basename $d); s=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  (cd /repo && timeout 300 bash $s/demo.sh >/tmp/seed.clean 2>&1); c=$?
  git -C /repo apply $s/patch.diff || { echo "$id does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/seed.build 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
  t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
ok=set(r.get('passed',[])); want=b.get('passed') or b.get('stable') or b
print(len([x for x in want if x not in ok]))
P
)
  (cd /repo && timeout 300 bash $s/demo.sh >/tmp/seed.bug 2>&1); g=$?
  if [ -z "$NOCHECK" ]; then out=$(timeout 900 ./check.sh $prop 2>&1); k=$?; fi
  git -C /repo checkout -q -- .
  ok=OK; [ $c = 0 ] && [ $b = 0 ] && [ "$t" = 0 ] && [ $g != 0 ] || ok=BADSEED
  [ "$k" = 1 ] && r=caught || r=MISSED
  echo "$id $prop $ok(clean=$c build=$b failedtests=$t demo=$g) $r rc=$k $(echo "$out" | grep -a -m1 -E 'VIOLATION' ) $(echo "$out" | tail -1 | grep -ao 'exhaustive.*')"
done
