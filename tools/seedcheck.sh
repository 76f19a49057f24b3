#!/bin/bash
# seedcheck.sh [-t] ID...: demo on the clean tree, then patched: demo, (stable tests with -t), the property's quick check
t=0; [ "$1" = -t ] && { t=1; shift; }
for id in "$@"; do
  s=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 2; }
  bash /opt/vp/build.sh >/tmp/sc.log 2>&1 || { echo "$id base build failed"; exit 2; }
  (cd /repo && timeout 300 bash $s/demo.sh) >/tmp/sc.d0 2>&1; d0=$?
  git -C /repo apply $s/patch.diff || { echo "$id does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/sc.log 2>&1; b=$?
  (cd /repo && timeout 300 bash $s/demo.sh) >/tmp/sc.d1 2>&1; d1=$?
  if [ $t = 1 ]; then bash /opt/vp/test.sh /tmp/sc.json >/tmp/sc.t 2>&1
    miss=$(python3 -c "
import json;s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);p=set(json.load(open('/tmp/sc.json'))['passed']);print(sorted(s-p))"); fi
  (cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run.sh $p quick) >/tmp/sc.c 2>&1; c=$?
  v=$(grep -m1 "^VIOLATION" /tmp/sc.c); 
  git -C /repo checkout -q -- .
  echo "$id [$p]: demo clean=$d0 patched=$d1 build=$b missing=${miss:-} check=$c $v"
  [ $c = 1 ] && grep -A3 -m1 VIOLATION /tmp/sc.c | cut -c1-300 | tail -3
done
bash /opt/vp/build.sh >/tmp/sc.log 2>&1
