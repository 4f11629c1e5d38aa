#!/usr/bin/env python3
"""Plants bugs: a definition file is a Python file with bug(...) calls.

  plant.py DEFS.py [ID...]      write /verif/seeded/<id> for those confirmed in a scratch copy
  plant.py --verify [ID...]     confirm the kept ones again against /repo's HEAD
  plant.py --catch [ID...]      run the check of each bug's property on it

Everything happens in /tmp/seed/repo, a copy of /repo; /repo itself is never touched.
"""
import json, os, re, subprocess, sys, shutil, tempfile
SEED='/tmp/seed/repo'; OUT='/verif/seeded'
def sh(cmd, cwd=SEED, timeout=900, env=None):
    p=subprocess.run(cmd,shell=True,cwd=cwd,capture_output=True,text=True,timeout=timeout,env={**os.environ,**(env or {})})
    return p.returncode,p.stdout+p.stderr
def script(name):
    dst=f'/tmp/seed/{name}'
    s=re.sub(r'/repo(?![a-z])',SEED,open(f'/opt/vp/{name}').read().replace('/opt/vp/build.sh','/tmp/seed/build.sh'))
    open(dst,'w').write(s); return dst
def reset():
    head=sh('git -C /repo rev-parse HEAD','/')[1].strip()
    if not os.path.isdir(SEED):
        os.makedirs('/tmp/seed',exist_ok=True); sh(f'cp -a /repo {SEED}','/')
    sh('git checkout -q -- . && git clean -fdq packages')
    if sh('git rev-parse HEAD')[1].strip()!=head:
        sh(f'git fetch -q /repo && git checkout -q {head}')
def build():
    return sh('bash '+script('build.sh'))
def tests():
    script('build.sh')
    rc,o=sh('bash '+script('test.sh')+' /tmp/seed/out.json')
    base=json.load(open('/opt/vp/BASELINE.json')); 
    want=set(base['tests'] if isinstance(base,dict) and 'tests' in base else base['stable'])
    got=json.load(open('/tmp/seed/out.json'))
    ok=set(got.get('passed',[])) if isinstance(got,dict) else set()
    return sorted(want-ok), len(want)
def demo(id):
    d=tempfile.mkdtemp(prefix='demo-')
    try:
        for f in os.listdir(f'{OUT}/{id}'):
            if f.endswith(('.diff','.patch')) or f=='meta.json': continue
            shutil.copy(f'{OUT}/{id}/{f}',d)
        return sh(f'bash {d}/demo.sh',timeout=300)
    finally: shutil.rmtree(d)
def apply(id):
    reset(); return sh(f'git apply {OUT}/{id}/patch.diff')
def verify(id, verbose=True):
    if any(x.endswith('.config.js') for x in open(f'{OUT}/{id}/patch.diff').read().split()): return False
    reset(); build(); rc,o=demo(id)
    if rc!=0: print(id,'BAD: demo fails on clean tree',rc,o[-600:]); return False
    rc,o=apply(id)
    if rc: print(id,'BAD: patch does not apply',o); return False
    rc,o=build()
    if rc: print(id,'BAD: does not build',o[-1500:]); return False
    missing,n=tests()
    if missing: print(id,'BAD: tests fail:',missing[:6]); return False
    rc,o=demo(id)
    if rc==0: print(id,'BAD: demo passes with the patch'); return False
    print(id,'ok; demo says:',o.strip().splitlines()[-1][:200] if o.strip() else ''); return True
def catch(id, tier='quick', prop=None):
    prop=prop or json.load(open(f'{OUT}/{id}/meta.json'))['property']
    rc,o=apply(id)
    if rc: print(id,'patch does not apply'); return
    rc,o=sh(f'node harness/run.js {prop} --tier {tier}' if False else f'node harness/run.js {prop}','/verif',env={'VERIF_REPO':SEED,'VERIF_SEED':'1','VERIF_TIER':tier})
    v=[l for l in o.splitlines() if l.startswith('VIOLATION')]
    print(f'{id} {prop}:', 'CAUGHT' if rc==1 and v else f'MISSED rc={rc} '+o[-300:], (v or [''])[0][:160], flush=True)
    return rc==1
BUGS=[]
def bug(id, prop, edits, needs, breaks, demo, files={}, sh_=None):
    BUGS.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,files=files,sh=sh_))
def make(b):
    reset()
    for f,old,new in b['edits']:
        p=f'{SEED}/packages/{f}'; s=open(p).read()
        if s.count(old)!=1: print(b['id'],'BAD edit',f,s.count(old),repr(old)); return False
        open(p,'w').write(s.replace(old,new))
    d=f"{OUT}/{b['id']}"; os.makedirs(d,exist_ok=True)
    diff=sh('git diff')[1]; open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write(b['sh'] or '#!/bin/bash\nexec node "$(dirname "$0")/demo.js"\n')
    open(d+'/demo.js','w').write(b['demo'].lstrip('\n'))
    for n,c in b['files'].items(): open(f'{d}/{n}','w').write(c)
    json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
    if not verify(b['id']): shutil.rmtree(d); return False
    return True
if __name__=='__main__':
    a=sys.argv[1:]
    if a[0]=='--verify':
        for i in a[1:] or sorted(os.listdir(OUT)): verify(i)
    elif a[0]=='--catch':
        for i in a[1:] or sorted(os.listdir(OUT)): catch(i)
    else:
        exec(open(a[0]).read())
        for b in BUGS:
            if len(a)>1 and b['id'] not in a[1:]: continue
            if len(a)==1 and os.path.exists(f"{OUT}/{b['id']}/patch.diff"): continue
            if make(b): catch(b['id'])
    reset()
