#!/bin/bash
# trybug.sh ID  -- confirm a planted bug: builds, stable tests pass, demo fails with / passes without; then run its check
V=$(cd "$(dirname "$0")/.." && pwd); D=$V/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 9; }
git apply "$D/patch.diff" || { echo "NOAPPLY"; exit 8; }
trap 'git -C /repo checkout -q -- .' EXIT
if ! bash /opt/vp/build.sh >/tmp/h/tb.log 2>&1; then echo "BUILD FAILS"; tail -20 /tmp/h/tb.log; exit 7; fi
bash /opt/vp/test.sh /tmp/h/tb.json >/tmp/h/tb2.log 2>&1; tail -1 /tmp/h/tb2.log
python3 - <<'PY'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=set(json.load(open('/tmp/h/tb.json'))['passed'])
m=sorted(b-t); print('stable tests failing with bug:',len(m),m[:5])
PY
(cd /repo; timeout 300 bash "$D/demo.sh" >/tmp/h/tb3.log 2>&1); echo "demo with bug: exit $?"
[ -n "$NOCHECK" ] || { (cd "$V"; timeout 900 python3 check.py $P > /tmp/h/tb4.log 2>&1; echo "check $P: exit $?"; grep -E '^VIOL|^ERR|^OK|^  .*(check|panic) id' /tmp/h/tb4.log | cut -c1-200 | head -5); }
git checkout -q -- .
bash /opt/vp/build.sh >/tmp/h/tb.log 2>&1
(cd /repo; timeout 300 bash "$D/demo.sh" >/tmp/h/tb3.log 2>&1); echo "demo without bug: exit $?"
