#!/bin/bash
# tryseed.sh ID... : on /repo itself: demo unpatched, patch + build + demo + check, undo + build
for id in "$@"; do
  D=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  cd /repo; T=/tmp/ts_$id; rm -rf "$T"; cp -r "$D" "$T"
  bash $T/demo.sh >/tmp/ts.log 2>&1; a=$?
  git apply $D/patch.diff || { echo "$id does not apply"; continue; }
  [ -n "$BUILD" ] && bash /opt/vp/build.sh >/tmp/ts_build.log 2>&1
  bash $T/demo.sh >/tmp/ts2.log 2>&1; b=$?
  if [ -n "$TEST" ]; then bash /opt/vp/test.sh /tmp/ts.json >/dev/null 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/ts.json'))
base=b['stable']
print("stable tests failing:", sorted(set(base)-set(r['passed']))[:5])
P
  fi
  cd /verif; out=$(VERIF_TIER=quick python3-vt check.py $P 2>&1); c=$?
  git -C /repo checkout -q -- .
  [ -n "$BUILD" ] && bash /opt/vp/build.sh >/tmp/ts_build.log 2>&1
  rm -rf "/tmp/ts_$id"
  echo "$id: demo unpatched=$a patched=$b check=$c  $(echo "$out" | grep VIOLATION | head -3)"
done
