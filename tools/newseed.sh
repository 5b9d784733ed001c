#!/bin/bash
# usage: tools/newseed.sh ID PROPERTY NEEDS BREAKS   makes seeded/ID from the diff of /tmp/bug and the test on stdin
dir=/verif/seeded/$1
mkdir -p "$dir"
git -C /tmp/bug diff > "$dir/patch.diff"
cat > "$dir/demo_test.go"
python3 - "$dir" "$2" "$3" "$4" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1]+"/meta.json","w"),indent=1)
P
cat > "$dir/demo.sh" <<'S'
#!/bin/bash
# cwd: the repository. Runs demo_test.go inside the package.
dir=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:$PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export TMPDIR=$tmp
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$dir" > "$tmp/overlay.json"
timeout 200 go test -overlay "$tmp/overlay.json" -run 'TestDemo' -count=1 -vet=off -timeout 100s . < /dev/null
S
chmod +x "$dir/demo.sh"
git -C /tmp/bug checkout -q -- .
/verif/tools/seed.sh "$1"
