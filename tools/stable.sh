#!/bin/bash
# stable.sh [seed-id...]: builds /repo with each planted bug and runs the stable tests; undoes the bug.
V=$(cd "$(dirname "$0")/.." && pwd); ids=("$@"); [ $# -gt 0 ] || ids=($(ls "$V/seeded"))
T=$(mktemp -d)
for id in "${ids[@]}"; do
	git -C /repo apply "$V/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
	bash /opt/vp/test.sh "$T/o.json" > "$T/log" 2>&1
	git -C /repo checkout -- .
	python3 - "$id" "$T/o.json" <<'P'
import json, sys
st = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p = set(json.load(open(sys.argv[2]))['passed'])
print(sys.argv[1], 'ok' if st <= p else 'FAILS ' + str(sorted(st - p)), flush=True)
P
done
rm -rf "$T"; bash /opt/vp/build.sh > /dev/null 2>&1; git -C /repo status --short
