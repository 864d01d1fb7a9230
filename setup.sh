#!/bin/bash
# Compiles every check once so that the build cache is warm.
set -u
DIR="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$DIR/harness" || exit 1
bin="$(mktemp -d /tmp/verif-bin.XXXXXX)"
trap 'rm -f "$bin"/*; rmdir "$bin" 2>/dev/null' EXIT
rc=0
for d in cmd/*/; do
  d="${d%/}"
  args=()
  ov="$("$DIR/tools/overlay.sh" "${d#cmd/}")" || rc=1
  [ -n "$ov" ] && args=(-overlay "$ov")
  [ -f "$d/RACE" ] && args+=(-race)
  go build "${args[@]}" -o "$bin/x" "./$d" || rc=1
done
exit $rc
