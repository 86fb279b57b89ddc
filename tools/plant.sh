#!/bin/bash
# Usage: tools/plant.sh ID [slot]   Confirms the planted bug seeded/ID in a scratch copy of /repo (slot names the copy):
# it applies, the unchanged copy passes demo.sh, the changed one builds, passes the stable tests and fails demo.sh.
# With CHECK=1 (default) runs the property's quick check against the changed copy too.
set -u
ID=$1 SLOT=${2:-a} V=$(cd "$(dirname "$0")/.." && pwd) W=/tmp/plant-${2:-a}
D=$V/seeded/$ID
[ -d "$W" ] || cp -a /repo "$W"
git -C "$W" fetch -q /repo HEAD 2>/dev/null
git -C "$W" checkout -q -f "$(git -C /repo rev-parse HEAD)" -- . 2>/dev/null || { git -C "$W" reset -q --hard FETCH_HEAD; }
git -C "$W" reset -q --hard "$(git -C /repo rev-parse HEAD)"
ns() { unshare -Urm bash -c "mount --bind $W /repo && cd /repo && $1"; }
if [ -z "${NODEMO:-}" ]; then
ns "bash /opt/vp/build.sh" >/tmp/plant-$SLOT.build0.log 2>&1 || echo "$ID: unchanged build FAILED"
S=$(mktemp -d /tmp/plantdemo.XXXX); cp "$D"/* "$S"/; rm -f "$S"/*.diff "$S"/meta.json
ns "timeout 300 bash $S/demo.sh" >/tmp/plant-$SLOT.demo0.log 2>&1; r0=$?
git -C "$W" apply "$D/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
ns "bash /opt/vp/build.sh" >/tmp/plant-$SLOT.build1.log 2>&1; rb=$?
ns "bash /opt/vp/test.sh /repo/_build/out.json" >/tmp/plant-$SLOT.test.log 2>&1
t=$(python3 - "$W/_build/out.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
b=b if isinstance(b,list) else b.get('passed') or b.get('stable') or next(v for v in b.values() if isinstance(v,list))
m=[x for x in b if x not in set(r['passed'])]
print("missing %d of %d %s"%(len(m),len(b),m[:2]))
P
)
ns "timeout 300 bash $S/demo.sh" >/tmp/plant-$SLOT.demo1.log 2>&1; r1=$?
rm -rf "$S"
echo "$ID: demo unchanged=$r0 changed=$r1 build=$rb tests: $t"
else
git -C "$W" apply "$D/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
fi
if [ "${CHECK:-1}" = 1 ]; then
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
VERIF_SEED=${VERIF_SEED:-1} VERIF_REPO=$W timeout 900 python3 "$V/vk/driver.py" "$P" --no-evidence >/tmp/plant-$SLOT.check.log 2>&1; rc=$?
echo "$ID: check $P rc=$rc $(grep -c ^VIOLATION /tmp/plant-$SLOT.check.log) violations; $(grep -m1 ^VIOLATION /tmp/plant-$SLOT.check.log)"
fi
git -C "$W" checkout -q -- .
