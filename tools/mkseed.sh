#!/bin/bash
# tools/mkseed.sh <id> <property> <pkg> <needs> <breaks>: from the edit present in /tmp/sw (a clone of /repo)
# and the test in /tmp/demo_test.go, make /verif/seeded/<id>.
set -eu
S=/verif/seeded/$1; mkdir -p $S
git -C /tmp/sw diff > $S/patch.diff
git -C /tmp/sw checkout -q -- .
cp /tmp/demo_test.go $S/demo_test.go; echo "$3" > $S/pkg
python3 - "$S/meta.json" "$2" "$4" "$5" <<'X'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1],'w'),indent=1)
X
cat > $S/demo.sh <<'X'
#!/bin/bash
# Runs demo_test.go inside the package named in ./pkg of the repository in the current directory.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d="$(cd "$(dirname "$0")" && pwd)"
pkg="$(cat "$d/pkg")"
t="$(mktemp -d)"
printf '{"Replace":{"%s/%s/zz_seed_test.go":"%s/demo_test.go"}}' "$PWD" "$pkg" "$d" > "$t/o.json"
go test -vet=off -count=1 -overlay "$t/o.json" "./$pkg" -run '^TestSeed$'
rc=$?
rm -f "$t/o.json"; rmdir "$t"
exit $rc
X
exec /verif/tools/seed.sh $1
