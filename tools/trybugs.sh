#!/bin/bash
# trybugs.sh ID...: each seeded bug in /repo: applies, builds, passes the stable tests, demo fails, check's verdict.
for id in "$@"; do
  d=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ -n "$(git -C /repo status --porcelain)" ] && { echo "repo dirty"; exit 1; }
  if [ -n "$CLEAN" ]; then (cd /repo && bash $d/demo.sh >/tmp/tb.$id.clean 2>&1); echo "$id demo clean rc=$?"; fi
  git -C /repo apply $d/patch.diff || { echo "$id does not apply"; continue; }
  bash /opt/vp/build.sh > /tmp/tb.$id.build 2>&1 || { echo "$id does not build"; git -C /repo checkout -- .; continue; }
  if [ -z "$NOTEST" ]; then
  bash /opt/vp/test.sh /tmp/tb.$id.json > /dev/null 2>&1
  python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);t=set(json.load(open('/tmp/tb.$id.json'))['passed'])
print('$id stable tests failing:',len(b-t),sorted(b-t)[:4])"; fi
  (cd /repo && bash $d/demo.sh > /tmp/tb.$id.demo 2>&1); echo "$id demo patched rc=$?"
  if [ -z "$NOCHECK" ]; then (cd ${VDIR:-/verif} && ./check $P quick > /tmp/tb.$id.check 2>&1; echo "$id check $P rc=$? $(grep -c ^VIOLATION /tmp/tb.$id.check)"); fi
  git -C /repo checkout -- .
done
bash /opt/vp/build.sh > /tmp/tb.build 2>&1
echo done
