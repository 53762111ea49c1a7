#!/bin/bash
# trybug.sh ID [check...]: applies seeded/ID in a scratch copy (/tmp/wt, shown as /repo in a mount namespace of its own), builds,
# runs the stable tests (unless NOTEST=1), the demo and the property's check; then undoes it.
ID=$1; shift
[ -d /tmp/wt ] || cp -a /repo /tmp/wt
exec unshare -m bash -s "$ID" "$@" <<'IN'
ID=$1; shift
mount --bind /tmp/wt /repo
cd /repo; git checkout -q -- .; git apply /verif/seeded/$ID/patch.diff || exit 9
bash /opt/vp/build.sh > /tmp/trybug-$ID.log 2>&1 || { echo "$ID: BUILD FAILED"; tail -20 /tmp/trybug-$ID.log; git checkout -q -- .; exit 9; }
if [ "$NOTEST" != 1 ]; then
 bash /opt/vp/test.sh /tmp/trybug-$ID.json > /tmp/trybug-$ID.tlog 2>&1
 python3 - $ID <<'PY'
import json, sys
b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); g = set(json.load(open(f"/tmp/trybug-{sys.argv[1]}.json"))["passed"])
print(sys.argv[1], "tests lost:", sorted(b - g)[:8], "of", len(b))
PY
fi
bash /verif/seeded/$ID/demo.sh > /tmp/trybug-$ID.demo 2>&1; echo "$ID demo (want nonzero): $?"
P=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
for p in $P; do VERIF_NO_BUILD=1 timeout 900 python3 /verif/check.py $p > /tmp/trybug-$ID.$p 2>&1; echo "$ID check $p (want 1): $?"; grep VIOLATION /tmp/trybug-$ID.$p | head -3; done
git checkout -q -- .
IN
