#!/bin/bash
# tools/bug.sh ID [prop...]: tries the planted bug seeded/ID against /repo: build, stable tests,
# demonstration with and without it, and the quick checks of the properties
# named (default: its own). /repo is restored afterwards.
ID=$1; shift
D=/verif/seeded/$ID
. /opt/vp/env.sh
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
git apply --check "$D/patch.diff" || exit 1
PROPS=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$NODEMO" ]; then
  bash /opt/vp/build.sh || exit 1
  timeout 300 bash "$D/demo.sh" > /tmp/demo.out 2>&1; echo "demo unchanged: exit $? (want 0)"
  git apply "$D/patch.diff"
  bash /opt/vp/build.sh || echo "DOES NOT BUILD"
  bash /opt/vp/test.sh /tmp/bugtest.json > /dev/null 2>&1
  python3 -c "
import json
m=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])-set(json.load(open('/tmp/bugtest.json'))['passed'])
print('tests:', 'ok' if not m else 'BROKEN %s'%sorted(m))"
  timeout 300 bash "$D/demo.sh" > /tmp/demo2.out 2>&1; echo "demo patched: exit $? (want non-zero)"
else
  git apply "$D/patch.diff"
fi
[ -n "$NOCHECK" ] && exit 0
for p in $PROPS; do
  (cd /verif; VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 ./check $p quick > /tmp/bugcheck.$p.out 2>&1; echo "check $p: exit $?"; grep -m3 -E 'VIOLATION|error' /tmp/bugcheck.$p.out)
done
