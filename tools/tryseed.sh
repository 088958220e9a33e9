#!/bin/bash
# tryseed.sh ID... : for each planted bug: unpatched demo passes, patched builds, passes the stable tests, demo fails, and which checks catch it
# CHECKS="C01 C02" overrides which checks are run (default: the property of the bug); NOTEST=1 skips the stable tests
cd /verif
for id in "$@"; do
  s=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  r="$id($p):"
  git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
  bash /opt/vp/build.sh >/dev/null 2>&1
  (cd /repo && timeout 300 bash $s/demo.sh >/tmp/tryseed.log 2>&1) && r="$r demo-ok" || r="$r DEMO-FAILS-UNPATCHED"
  git -C /repo apply $s/patch.diff || { echo "$r DOES NOT APPLY"; continue; }
  bash /opt/vp/build.sh >/tmp/tryseed.log 2>&1 && r="$r builds" || { echo "$r NO-BUILD"; tail -3 /tmp/tryseed.log; git -C /repo checkout -q -- .; continue; }
  if [ -z "$NOTEST" ]; then
    bash /opt/vp/test.sh /tmp/tryseed.json >/dev/null 2>&1
    r="$r $(python3 -c "
import json;a=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);b=set(json.load(open('/tmp/tryseed.json'))['passed']);print('tests-ok' if not a-b else 'TESTS-FAIL %s'%sorted(a-b)[:3])")"
  fi
  (cd /repo && timeout 300 bash $s/demo.sh >/tmp/tryseed.log 2>&1) && r="$r DEMO-PASSES-PATCHED" || r="$r demo-fails"
  for c in ${CHECKS:-$p}; do
    t0=$(date +%s); ./run.sh $c >/tmp/tryseed.$id.$c.log 2>&1; rc=$?
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$c" /tmp/tryseed.$id.$c.log; then r="$r $c:CAUGHT"; else r="$r $c:missed(rc=$rc)"; fi
    r="$r[$(( $(date +%s) - t0 ))s]"
  done
  git -C /repo checkout -q -- .
  echo "$r"
done
