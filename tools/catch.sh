#!/bin/bash
# Applies each planted change to /repo, runs the check of its property (or the
# checks given in CHECKS) and undoes it. usage: catch.sh [ID-pattern...]
cd "$(dirname "$0")/.." || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for d in seeded/*/; do
	id=$(basename "$d")
	if [ $# -gt 0 ]; then
		hit=; for p in "$@"; do [[ $id == $p ]] && hit=1; done
		[ -n "$hit" ] || continue
	fi
	prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$d/meta.json")
	git -C /repo apply "$PWD/$d/patch.diff" || { echo "$id DOES-NOT-APPLY"; continue; }
	for c in ${CHECKS:-$prop}; do
		start=$(date +%s)
		out=$(bash run.sh "$c" 2>&1); rc=$?
		if [ $rc = 1 ] && grep -q "^VIOLATION property=$c " <<<"$out"; then r=CAUGHT; else r="MISSED(rc=$rc)"; fi
		echo "$id $c $r $(( $(date +%s) - start ))s"
	done
	git -C /repo checkout -q -- .
done
