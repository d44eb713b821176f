#!/bin/bash
# tools/combtest.sh [ids...]: applies several seeded patches to one scratch copy and runs the stable tests (none: plain tree)
set -u
W=$(mktemp -d /tmp/bug.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cd "$W/repo" && git checkout -q -- .
export OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
for i in "$@"; do git apply /verif/seeded/$i/patch.diff || echo "no apply $i"; done
if git diff --name-only | grep -q '\.c$'; then cmake -S vayesta/libs -B build/cmake2 -DCMAKE_C_COMPILER=/usr/bin/gcc -DCOMPILER_SUPPORTS_MARCH_NATIVE=OFF -DCMAKE_POLICY_VERSION_MINIMUM=3.5 >/dev/null && cmake --build build/cmake2 >/dev/null; fi
sed -e "s#/repo#$W/repo#g" /opt/vp/test.sh | sed -e "s#bash /opt/vp/build.sh --lib#true#" > "$W/test.sh"
bash "$W/test.sh" "$W/out.json" >"$W/t.log" 2>&1
python3 - "$W/out.json" "$*" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
base=b.get('stable') or b.get('passed') or b
miss=[t for t in base if t not in set(r['passed'])]
print(sys.argv[2],'passed:',len(r['passed']),'stable tests broken:',len(miss),miss[:8])
P
