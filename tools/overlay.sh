#!/bin/bash
# overlay.sh cNN REPO: writes the build overlay for one check and prints its path
# (nothing when the check needs none).
#  - cmd/cNN/FASTKECCAK: gnark's own (dependency, not zk-utils) Keccak-f gadget
#    with one line added that lets the exploration engine evaluate the
#    permutation natively; used by the checks that hash many trie nodes.
#  - cmd/cNN/overlay/<path>.go.txt: a file added to zk-utils as <path>.go, giving
#    the check access to a package's unexported names.
set -eu
DIR="$(cd "$(dirname "$0")/.." && pwd)"
c="$1"; repo="${2:-/repo}"
cd "$DIR/harness"
out=/tmp/verif-overlay
items=()
mkdir -p "$out"
if [ -f "cmd/$c/FASTKECCAK" ]; then
  g="$(go list -m -f '{{if .Replace}}{{.Replace.Dir}}{{else}}{{.Dir}}{{end}}' github.com/consensys/gnark)"
  src="$g/std/permutation/keccakf/keccakf_old.go"
  t="$(mktemp "$out/k.XXXXXX")"
  awk '{print} /^func PermuteOld\(/{print "\tif k, ok := api.(interface{ NativeKeccakF([25]frontend.Variable) ([25]frontend.Variable, bool) }); ok {\n\t\tif r, ok := k.NativeKeccakF(a); ok {\n\t\t\treturn r\n\t\t}\n\t}"}' "$src" > "$t"
  grep -q NativeKeccakF "$t"
  mv "$t" "$out/keccakf_old.go"
  items+=("\"$src\":\"$out/keccakf_old.go\"")
fi
if [ -d "cmd/$c/overlay" ]; then
  while read -r f; do
    src="$DIR/harness/cmd/$c/overlay/$f"
    if grep -q newEdCurve "$src"; then
      # the curve's constructor, whatever it is called
      n="$(cd "$repo/$(dirname "$f")" && ls *.go | grep -v _test.go | xargs grep -hoP '^func \K\w+(?=\(\w+ frontend\.API\) \(Curve, error\))' | grep -vx VerifCurve | head -1 || true)"
      if [ -n "$n" ] && [ "$n" != newEdCurve ]; then
        t="$(mktemp "$out/h.XXXXXX")"
        sed "s/newEdCurve/$n/" "$src" > "$t"; src="$t"
      fi
    fi
    items+=("\"$repo/${f%.txt}\":\"$src\"")
  done < <(cd "cmd/$c/overlay" && find . -name '*.go.txt' -printf '%P\n' | sort)
fi
[ ${#items[@]} -eq 0 ] && exit 0
t="$(mktemp "$out/o.XXXXXX")"
(IFS=,; printf '{"Replace":{%s}}\n' "${items[*]}") > "$t"
mv "$t" "$out/$c.json"
echo "$out/$c.json"
