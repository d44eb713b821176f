#!/bin/bash
# tools/bugcheck.sh <bug id>... : applies the bug to /repo, runs its property's quick check, undoes it.
for ID in "$@"; do
B=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
git -C /repo apply $B/patch.diff || { echo "$ID no apply"; continue; }
S=$(date +%s); bash /verif/run.sh $P --quick >/tmp/bc.$ID.log 2>&1; r=$?
git -C /repo checkout -- .
N=$(grep -c '^VIOLATION' /tmp/bc.$ID.log); L=$(grep '^VIOLATION' /tmp/bc.$ID.log | head -1)
echo "$ID $P exit=$r $(( $(date +%s)-S ))s $N $L"
python3 - $ID $r "$L" <<'P'
import json,sys,os
f='/verif/tools/detection.json'; d=json.load(open(f)) if os.path.exists(f) else {}
d[sys.argv[1]]='yes (%s)'%os.path.basename(sys.argv[3].split('replay=')[-1]).replace('.json','') if sys.argv[2]=='1' else 'no'
json.dump(d,open(f,'w'),indent=1,sort_keys=True)
P
done
