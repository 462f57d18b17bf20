#!/usr/bin/env python3
"""seed.py new ID PROP FILE 'needs' 'breaks' [srcs...] <<stdin: OLD \n=====\n NEW \n=====\n DEMO body (C++)  -- writes seeded/ID
   seed.py verify ID [check]  -- applies to /repo, build+tests+demo(+check), undoes"""
import sys,os,subprocess,json
V='/verif'; R=os.environ.get('SEED_REPO','/repo')
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
DEMO='''#!/bin/bash
# exit 0 when the property holds for the demonstrated input, 1 when it is broken
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -w -O1 -fopenmp -include cassert %s-I"$PWD/src" -I"$PWD/lib/tetgen" "$D/demo.cpp" %s -o "$T/demo" || exit 3
cd "$T" && timeout 60 ./demo
'''
def new(a):
    id,prop,f,needs,br=a[:5]; srcs=a[5:]; *prs,demo=sys.stdin.read().split('\n=====\n')
    d=f'{V}/seeded/{id}'; os.makedirs(d,exist_ok=True); p=f'{R}/{f}'; s=open(p).read()
    for old,new in zip(prs[::2],prs[1::2]):
        if s.count(old)!=1: sys.exit('old text occurs %d times'%s.count(old))
        s=s.replace(old,new)
    open(p,'w').write(s); r=sh(f'git -C {R} diff'); open(d+'/patch.diff','w').write(r.stdout); sh(f'git -C {R} checkout -- .')
    open(d+'/demo.cpp','w').write(demo)
    hf='-I"$D/hf" ' if 'hf' in srcs else ''; srcs=[x for x in srcs if x!='hf']
    if hf: sh(f'cp -r {V}/rt/hf {d}/hf')
    open(d+'/demo.sh','w').write(DEMO%(hf,' '.join('"$PWD/%s"'%x for x in srcs))); os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=br),open(d+'/meta.json','w'),indent=1)
    verify([id]+(['check'] if not os.environ.get('NOCHECK') else []))
def verify(a):
    id=a[0]; d=f'{V}/seeded/{id}'; prop=json.load(open(d+'/meta.json'))['property']
    assert not sh(f'git -C {R} status --porcelain').stdout.strip(),'repo dirty'
    r0=sh(f'bash {d}/demo.sh',cwd=R); print(id,'demo unchanged rc',r0.returncode,r0.stdout[-300:] if r0.returncode else '')
    ap=sh(f'git -C {R} apply {d}/patch.diff'); 
    try:
        if ap.returncode: print('apply failed',ap.stdout); return
        if 'nobuild' not in a and R=='/repo':
            b=sh('bash /opt/vp/build.sh'); t=sh('bash /opt/vp/test.sh /tmp/seed.json'); j=json.load(open('/tmp/seed.json')); print('  build',b.returncode,'tests',len(j['passed']),'failed',j['failed'])
        r=sh(f'bash {d}/demo.sh',cwd=R); print('  demo patched rc',r.returncode,r.stdout[-300:])
        if 'check' in a:
            c=sh(f'VP_REPO={R} python3 {V}/vp.py check {prop}'); print('  check rc',c.returncode,'\n    '+'\n    '.join(c.stdout.strip().split('\n')[-6:]))
    finally: sh(f'git -C {R} checkout -- .')
{'new':new,'verify':verify}[sys.argv[1]](sys.argv[2:])
