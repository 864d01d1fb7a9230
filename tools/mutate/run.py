#!/usr/bin/env python3
"""run.py REPO PROP[,PROP..] FILE[:from-to] [max] [timeout] [seed]: mutants of FILE (repo-relative), each put into the build
of the properties' quick checks by an overlay; prints those all of the checks miss. MUT_KIND selects. Development aid."""
import sys,os,subprocess,json,random,shutil,time,re
repo,props,spec=sys.argv[1:4]; mx=int(sys.argv[4]) if len(sys.argv)>4 else 30; tmo=int(sys.argv[5]) if len(sys.argv)>5 else 300
seed=int(sys.argv[6]) if len(sys.argv)>6 else 1
props=props.split(',')
f,_,rng=spec.partition(':'); lo,hi=(map(int,rng.split('-')) if rng else (0,10**9))
W=f'/tmp/mut/{props[0]}-{os.path.basename(f)}-{os.getpid()}'; os.makedirs(W)
H='/verif/harness'
env=dict(os.environ)
for l in subprocess.check_output(['bash','-c','. /opt/vp/env.sh; env'],text=True).split('\n'):
    k,_,v=l.partition('=')
    if k: env[k]=v
mut='/tmp/mut/mutate2'
if not os.path.exists(mut): subprocess.check_call(['go','build','-o',mut,'/verif/tools/mutate/main.go'],env=env)
ms=[l.split('\t') for l in subprocess.check_output([mut,f'{repo}/{f}',W+'/m'],text=True).strip().split('\n')]
ms=[m for m in ms if lo<=int(m[1])<=hi]
kind=os.environ.get('MUT_KIND') # regular expression
if kind: ms=[m for m in ms if re.search(kind,m[2])]
random.Random(seed).shuffle(ms)
s=open(H+'/go.mod').read().replace('=> /repo','=> '+repo); open(W+'/go.mod','w').write(s); shutil.copy(H+'/go.sum',W+'/go.sum')
env.update(VERIF_DIR=W+'/v',VERIF_TIER='quick'); os.makedirs(W+'/v'); shutil.copy('/verif/known-findings.jsonl',W+'/v')
base={}
for p in props:
    ov=subprocess.check_output(['/verif/tools/overlay.sh',p.lower(),repo],text=True,env=env).strip()
    base[p]=json.load(open(ov))['Replace'] if ov else {}
n=c=0
by={}
for num,line,what,text in ms:
    if n>=mx: break
    res=None; t=time.time()
    for prop in props:
        r=dict(base[prop]); r[f'{repo}/{f}']=f'{W}/m/{num}.go'
        json.dump({'Replace':r},open(W+'/o.json','w'))
        b=subprocess.run(['go','build','-modfile',W+'/go.mod','-overlay',W+'/o.json','-o',W+'/check','./cmd/'+prop.lower()],cwd=H,env=env,capture_output=True,text=True)
        if b.returncode: break
        try:
            p=subprocess.run([W+'/check'],cwd=W+'/v',env=env,capture_output=True,text=True,timeout=tmo); rc=p.returncode
            res='caught' if rc==1 and 'VIOLATION' in p.stdout else 'MISSED' if rc==0 else f'rc {rc} {(p.stdout+p.stderr)[-300:]!r}'
        except subprocess.TimeoutExpired: res='TIMEOUT'
        if res!='MISSED': by[prop]=by.get(prop,0)+1; break
    if res is None: continue
    n+=1
    if res=='caught': c+=1
    else: print(f'{",".join(props)} {f}:{line} [{what}] {text} => {res} {time.time()-t:.0f}s',flush=True)
print(f'== {",".join(props)} {spec}: {c} of {n} caught ({len(ms)} mutants) {by}',flush=True)
shutil.rmtree(W)
