#!/bin/bash
# tools/seed.sh <id> : confirm a planted bug in a scratch copy of /repo:
# applies, builds, demo passes without it and fails with it, stable tests pass with it.
# tools/seed.sh <id> check : apply to /repo, run the property's quick check, undo.
set -u
. /opt/vp/env.sh
S=/verif/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
if [ "${2:-}" = check ]; then
  git -C /repo apply $S/patch.diff || exit 3
  (cd /verif && timeout 900 ./check $P quick | cut -c1-300 | tail -4)
  git -C /repo checkout -- .
  exit
fi
W=$(mktemp -d /tmp/seed.XXXXXX)
cp -a /repo $W/repo; D=$W/d; mkdir $D; cp -a $S/. $D; rm -f $D/patch.diff $D/meta.json
r() { # run in a mount-free way: the demo uses the cwd as the repository
  (cd $W/repo && timeout 300 bash $D/demo.sh >$W/log 2>&1); echo $?; }
a=$(r)
[ $a = 0 ] || { echo "demo fails on unchanged tree"; tail -20 $W/log; }
git -C $W/repo apply $S/patch.diff || echo "patch does not apply"
(cd $W/repo && go build ./... ) || echo "does not build"
b=$(r)
[ $b != 0 ] || echo "demo does not fail with the patch"
[ "${2:-}" = -v ] && tail -20 $W/log
(cd $W/repo && python3 - <<'X'
import json,subprocess,collections
b=[str(x) for x in json.load(open('/opt/vp/BASELINE.json'))['stable']]
g=collections.defaultdict(set)
for t in b:
    # package/TestName[/sub]
    parts=t.split('/'); i=next(k for k,x in enumerate(parts) if x.startswith(('Test','Example','Fuzz')) and x!='test')
    g['/'.join(parts[:i])].add(parts[i])
for p,n in g.items():
    subprocess.run(['go','test','-vet=off','-json',p,'-run','^('+'|'.join(sorted(n))+')$'],stderr=subprocess.DEVNULL)
X
) > $W/t.json
python3 - $W/t.json <<'X'
import json,sys
b=[str(x) for x in json.load(open('/opt/vp/BASELINE.json'))['stable']]
p=set()
for l in open(sys.argv[1]):
    try: d=json.loads(l)
    except: continue
    if d.get('Action')=='pass' and 'Test' in d: p.add(d['Package']+'/'+d['Test'])
m=[x for x in b if x not in p]
print('demo/tests: missing stable',m[:6])
X
echo "$1: unchanged=$a patched=$b"
rm -rf "$W"
