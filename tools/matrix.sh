#!/bin/bash
# matrix.sh [seed-id...]   runs the quick check of the property of each planted bug against a scratch copy of
# /repo with the bug, and prints what it says. PROPS="C01 C02" overrides the properties.
V=$(cd "$(dirname "$0")/.." && pwd); W=${W:-/tmp/matrix}; mkdir -p "$W/obj"
ids=("$@"); [ $# -gt 0 ] || ids=($(ls "$V/seeded"))
for id in "${ids[@]}"; do
	d="$W/$id"; mkdir -p "$d"; cp -a /repo "$d/repo"; git -C "$d/repo" apply "$V/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
	mkdir -p "$d/b"; ln -sfn "$W/obj" "$d/b/obj"
	props=${PROPS:-$(python3 -c "import json; print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}
	for p in $props; do
		g=$(sed -n "s/^\(.*|\)\?$p\(|.*\)\?) G=\([a-z_]*\).*/\3/p" "$V/check.sh")
		( cd "$V" && REPO="$d/repo" BUILD_DIR="$d/b" ./build.sh $g >/dev/null 2>"$d/err" ) || { echo "$id $p: does not compile"; continue; }
		( cd "$d" && timeout 900 "$d/b/$g" $p --tier ${TIER:-quick} --seed ${SEED:-1} --evidence "$d/ev.json" --replay-dir "$d" --known "$V/known-findings.txt" ) > "$d/out" 2>&1; rc=$?
		echo "$id $p rc=$rc $(grep -c VIOLATION "$d/out") $(grep -h '^message' "$d"/$p-*.case 2>/dev/null | head -1 | cut -c1-150) [$(grep -h 'quick seed\|thorough seed' "$d/out" | sed 's/.*: \([0-9]* cases\).* \([0-9.]* s\)$/\1 \2/')]"
	done
	rm -rf "$d"
done
