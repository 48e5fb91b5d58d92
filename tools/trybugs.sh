#!/bin/bash
# tools/trybugs.sh [ids...]: applies each seeded bug to /repo, runs its
# property's quick check and undoes it. /repo must be clean.
root=$(cd "$(dirname "$0")/.." && pwd)
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in ${@:-$(ls "$root/seeded")}; do
	p=$(python3 -c "import json;print(json.load(open('$root/seeded/$id/meta.json'))['property'])")
	git -C /repo apply "$root/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
	o=$("$root/run.sh" $p 2>&1); rc=$?
	git -C /repo checkout -q -- .
	if [ $rc = 1 ] && grep -q "VIOLATION property=$p" <<<"$o"; then r=caught; else r="MISSED rc=$rc"; fi
	echo "$id ($p): $r; $(tail -1 <<<"$o" | cut -c1-150)"
done
