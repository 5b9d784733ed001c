#!/bin/bash
# usage: tools/seed.sh ID [check flags]   confirms a planted bug and runs its property's check on it
# (the bug is applied to /repo for the check and undone afterwards)
. /opt/vp/env.sh
dir=/verif/seeded/$1
id=$1
shift
prop=$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
w=$(mktemp -d /tmp/seed.XXXXXX)
d=$(mktemp -d /tmp/demo.XXXXXX)
cp -a /repo "$w/repo"
cp -a "$dir/." "$d/"
find "$d" -name '*.patch' -delete; find "$d" -name '*.diff' -delete; find "$d" -name 'meta.json' -delete
cd "$w/repo" && git checkout -q -- . 
bash "$d/demo.sh" > "$w/clean.log" 2>&1; c=$?
git apply "$dir/patch.diff" || { echo "$id: does not apply"; c=99; }
go build ./ ./runes || { echo "$id: does not build"; c=99; }
bash "$d/demo.sh" > "$w/bug.log" 2>&1; b=$?
go test -race -vet=off -count=1 . ./runes < /dev/null > "$w/test.log" 2>&1; t=$?
# TestRace is not one of the stable tests
[ $t -ne 0 ] && grep -q -- '--- FAIL' "$w/test.log" && echo "$id: tests fail: $(grep -- '--- FAIL' "$w/test.log" | head -5)"
if [ $c -ne 0 ] || [ $b -eq 0 ]; then
	echo "$id: demo clean=$c bug=$b"; tail -n 20 "$w/clean.log" "$w/bug.log"
fi
cd /; rm -rf "${w:?}" "${d:?}"
if [ -n "$(git -C /repo status --porcelain -uno)" ]; then echo "repo dirty"; exit 1; fi
git -C /repo apply "$dir/patch.diff" || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
cd /verif; out=$(VERIF_SEED=1 timeout 900 ./check.sh "$prop" "$@" 2>&1); rc=$?
if [ $rc -eq 1 ] && grep -q "^VIOLATION property=$prop" <<<"$out"; then
	echo "$id: CAUGHT by $prop ($(grep -c '^VIOLATION' <<<"$out") classes, $(grep -o '[0-9.]*s, [0-9]* violation' <<<"$out" | head -1)) [$(grep -o '^  \[[^]]*\]' <<<"$out" | head -3 | tr -d '\n')]"
else
	echo "$id: MISSED by $prop rc=$rc"; tail -4 <<<"$out" | cut -c1-600
fi
