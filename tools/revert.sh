#!/bin/bash
# tools/revert.sh <commit> <property>...: in a scratch clone of /repo with the fix commit reverted, builds and
# runs the checks; prints whether each reports a violation.
set -u
DIR="$(cd "$(dirname "$0")/.." && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
c="$1"; shift
t="$(mktemp -d /tmp/rev.XXXXXX)"
trap 'rm -rf "$t"' EXIT
git clone -q /repo "$t/repo"
cd "$t/repo"
git config user.email x@x; git config user.name x
if ! git revert --no-edit "$c" >/dev/null 2>&1; then
  git revert --abort 2>/dev/null
  # later commits touch the same lines: take the tree before the fix
  git checkout -q "$c^"
  how=before
else
  how=reverted
fi
cp -a "$DIR/harness" "$t/h"; rm -rf "$t/h/bin"
cd "$t/h"; sed -i "s#=> /repo#=> $t/repo#" go.mod
mkdir -p "$t/v/evidence"; cp "$DIR/known-findings.jsonl" "$t/v/"
for p in "$@"; do
  l="$(echo "$p" | tr A-Z a-z)"
  a=(); ov="$("$DIR/tools/overlay.sh" "$l" "$t/repo")"; [ -n "$ov" ] && a=(-overlay "$ov"); [ -f "cmd/$l/RACE" ] && a+=(-race)
  if ! go build "${a[@]}" -o "$t/x" "./cmd/$l" 2>"$t/log"; then
    if ! go build -tags nohooks -o "$t/x" "./cmd/$l" 2>>"$t/log"; then echo "$c $how $p BUILD $(head -2 "$t/log" | tail -1)"; continue; fi
  fi
  (cd "$t/v"; VERIF_DIR="$t/v" timeout 1200 "$t/x" > "$t/out" 2>&1; echo "$c $how $p rc=$? $(grep -m1 VIOLATION "$t/out") $(grep -A1 -m1 VIOLATION "$t/out" | tail -1 | cut -c1-120)")
done
