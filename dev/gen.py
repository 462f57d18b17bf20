#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and checks.py (properties without a check go to not_applicable)."""
import json, sys, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V)
from checks import CHECKS
P=[]; NA={}
def prop(id,title,statement,over,text,why,files,mech,na=None):
    assert len(title)<=80,(id,len(title)); P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
    if na: NA[id]=na
exec(open(V+'/dev/props.py').read())
TECH='symbolic execution of the LLVM bitcode of the real code; Z3 decides every branch, memory access and assertion; counterexamples replayed natively'
NOTE='Holds for every input within the stated bounds (see evidence: bounds, outside, entries). Trusts clang, the bitcode interpreter in /verif/engine, the models in /verif/rt, and Z3; floating point is treated as real arithmetic unless an entry says IEEE.'
if __name__=='__main__':
    open(V+'/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
    ids={p['id'] for p in P}; assert set(CHECKS)<=ids,set(CHECKS)-ids
    m=dict(version=1,setup_cmd='make -C /verif/engine',checks=[dict(property=p['id'],quick_cmd='python3 /verif/vp.py check %s'%p['id'],thorough_cmd='python3 /verif/vp.py check %s --tier thorough'%p['id'],technique=CHECKS[p['id']].get('technique',TECH),level='model_checking',level_note=(CHECKS[p['id']].get('note','')+' '+NOTE).strip()) for p in P if p['id'] in CHECKS],
      not_applicable=[dict(property=p['id'],reason=NA.get(p['id'],'no check built yet')) for p in P if p['id'] not in CHECKS])
    json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); print(len(m['checks']),'claimed',len(m['not_applicable']),'not')
