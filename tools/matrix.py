#!/usr/bin/env python3
"""Which planted changes does the check of their property report?
   matrix.py [-j N] [--tier quick] [ID...]   works on copies under /tmp/mx, prints one line per change,
   and merges the outcome into tools/matrix.json."""
import sys, os, subprocess, shutil, json, time, concurrent.futures as cf
V='/verif'; R='/repo'; W='/tmp/mx'; J=2; tier='quick'; a=sys.argv[1:]; ids=[]; every=False
while a:
    x=a.pop(0)
    if x=='-j': J=int(a.pop(0))
    elif x=='--tier': tier=a.pop(0)
    else: ids.append(x)
ids=ids or sorted(os.listdir(V+'/seeded'))
def one(id):
    w=f'{W}/{id}'; shutil.rmtree(w,ignore_errors=True); os.makedirs(w)
    try:
        subprocess.run(f'git clone -q --shared {R} {w}/repo && git -C {w}/repo apply {V}/seeded/{id}/patch.diff',shell=True,check=True)
        subprocess.run(f'mkdir {w}/v && cp -r {V}/*.py {V}/*.txt {V}/harness {V}/shim {w}/v/',shell=True,check=True)
        if os.path.isdir(V+'/models'): shutil.copytree(V+'/models',w+'/v/models')
        p=json.load(open(f'{V}/seeded/{id}/meta.json'))['property']
        t=time.time()
        r=subprocess.run(['timeout','900','python3','run.py',p,tier],cwd=w+'/v',capture_output=True,text=True,env=dict(os.environ,VERIF_REPO=w+'/repo',VERIF_BUILD=w+'/b',VERIF_TIER=tier))
        hit=r.returncode==1 and f'VIOLATION property={p}' in r.stdout
        return id,p,hit,round(time.time()-t),r.returncode,(r.stdout+r.stderr)[-1500:]
    finally: shutil.rmtree(w,ignore_errors=True)
mj=V+'/tools/matrix.json'
res=json.load(open(mj)) if os.path.exists(mj) else {}
with cf.ThreadPoolExecutor(J) as ex:
    for f in cf.as_completed([ex.submit(one,i) for i in ids]):
        id,p,hit,t,rc,out=f.result()
        print('caught' if hit else 'MISSED',id,p,f'{t}s',flush=True)
        if not hit: print('   rc',rc,out[-600:] if rc not in(0,) else '',flush=True)
        res[id]=dict(property=p,caught=hit)
        json.dump(res,open(mj,'w'),indent=0,sort_keys=True)
