#!/bin/bash
# tools/bugtest.sh <bug id> [--tests]: applies seeded/<id>/patch.diff to a scratch copy, runs the demo there
# (with and without) and optionally the stable tests. Scratch copy is removed.
set -u
ID=$1; B=/verif/seeded/$ID
W=$(mktemp -d /tmp/bug.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cd "$W/repo" && git checkout -q -- .
mkdir "$W/demo"; cp "$B"/* "$W/demo"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
export OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
PYTHONPATH=$W/repo bash "$W/demo/demo.sh" >"$W/o1" 2>&1; a=$?
git apply "$B/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
if grep -q '^+++.*\.c$' "$B/patch.diff"; then cmake -S vayesta/libs -B build/cmake2 -DCMAKE_C_COMPILER=/usr/bin/gcc -DCOMPILER_SUPPORTS_MARCH_NATIVE=OFF -DCMAKE_POLICY_VERSION_MINIMUM=3.5 >/dev/null && cmake --build build/cmake2 >/dev/null; fi
PYTHONPATH=$W/repo bash "$W/demo/demo.sh" >"$W/o2" 2>&1; b=$?
echo "$ID demo: unchanged=$a patched=$b $(tail -1 $W/o2)"
[ $a -ne 0 ] && tail -5 "$W/o1"
if [ "${2:-}" = --tests ]; then
  sed -e "s#/repo#$W/repo#g" /opt/vp/test.sh | sed -e "s#bash /opt/vp/build.sh --lib#true#" > "$W/test.sh"
  bash "$W/test.sh" "$W/out.json" >"$W/t.log" 2>&1
  python3 - "$W/out.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
base=b.get('stable') or b.get('passed') or b
miss=[t for t in base if t not in set(r['passed'])]
print('stable tests broken:',len(miss),miss[:5])
P
fi
