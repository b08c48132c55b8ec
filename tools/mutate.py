#!/usr/bin/env python3
"""Mutation survey: small systematic changes of one .cpp file of the project at a time; which of
   them no check reports?   mutate.py [-j N] [--limit S] FILE...   (results appended to /tmp/mut/res.jsonl)"""
deps={}
import sys, os, re, subprocess, json, shutil, glob, hashlib, threading, queue, time
sys.path.insert(0,'/verif'); R='/repo'; V='/verif'; W='/tmp/mut'
CXX=['g++','-std=gnu++20','-g0','-w',f'-I{V}/shim',f'-I{V}/harness']
SAN=['-O1','-fsanitize=address,undefined','-fno-sanitize=alignment','-fno-sanitize-recover=all']
MAP=[('node/node_ice',['node_ice']),('node/node_stun/node_stun_client',['node_client']),('node/',['node']),('src/util/util_intrusive',['util']),('src/util/util_hash_dynamic',['net']),('src/util/util_hash',['net']),('src/util/util_endian',['stun']),('src/util/util_flat',['stun','server','util']),('src/util/util_tagged',['types','stun']),('src/util/util_typed',['types']),('src/util/util_result',['stun','ice']),('src/util/util_error',['errors']),('src/clock/',['clock']),('src/abnf',['ice','net']),('src/precis',['server','client']),('src/stat',['types','stun']),('src/stun/stun_client_udp',['client','network']),('src/stun/details/stun_client',['client']),('src/stun/stun_server',['server']),('src/stun/',['stun','server','client','types']),('src/crypto/',['crypto','stun']),('src/net/',['net','ice']),('src/rtp/',['rtp','types']),('src/ice/',['ice']),('src/util/util_binary_view',['stun']),('src/util/',['net','util','types'])]
PROPS={'client':['C02','C05','C07','C06','C04','C08','C01','C03'],'network':['C09'],'server':['V01','V02'],'stun':['S02','S03','S05','S04','S06','S01'],'types':['S07','S08','R03','U06','U08'],'crypto':['K01','K02'],'net':['N01','N02','N03','N04'],'ice':['I01','I02','I03'],'rtp':['R01','R02'],'util':['U01','U02','U09'],'errors':['U05'],'clock':['U03','U04'],'node':['B01','B02','B05'],'node_client':['B03'],'node_ice':['B04']}
def mutants(f):
    L=open(f'{R}/{f}').read().split('\n'); out=[]; cm=False
    for i,l in enumerate(L):
        s=l.strip(); code=l.split('//')[0]
        if not s or s.startswith(('//','#include','using ','namespace','}','*','/*')): continue
        seen=set()
        def add(new,op):
            if new!=l and new not in seen: seen.add(new); out.append((i,new,op))
        nos=re.sub(r'"[^"]*"',lambda m:'\0'*len(m[0]),code)
        def sub(rx,rep,op):
            for m in re.finditer(rx,nos):
                r=rep(m) if callable(rep) else rep
                if r is None: continue
                add(l[:m.start()]+r+l[m.end():],op)
        sub(r'(?<=[^<\-])<(?=[^<=a-zA-Z:])| < ',lambda m:m[0].replace('<','<='),'rel'); sub(r' <= ',' < ','rel'); sub(r' > ',' >= ','rel'); sub(r' >= ',' > ','rel')
        sub(r' == ',' != ','eq'); sub(r' != ',' == ','eq'); sub(r' && ',' || ','log'); sub(r' \|\| ',' && ','log')
        sub(r' \+ ',' - ','ar'); sub(r' - ',' + ','ar'); sub(r' \* ',' / ','ar'); sub(r' / ',' * ','ar'); sub(r' << ',' >> ','sh'); sub(r' >> ',' << ','sh'); sub(r' & ',' | ','bit'); sub(r' \| ',' & ','bit'); sub(r' \^ ',' & ','bit')
        sub(r'\+=','-=','ar'); sub(r'-=','+=','ar')
        sub(r'\btrue\b','false','bool'); sub(r'\bfalse\b','true','bool'); sub(r'(?<=[(\s])!(?=[a-zA-Z(])','','not')
        sub(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])',lambda m:str(int(m[0],0)+1),'const+'); sub(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])',lambda m:str(int(m[0],0)-1) if int(m[0],0)>0 else None,'const-')
        for a,b in(('is_some','is_none'),('is_none','is_some'),('is_ok','is_err'),('is_err','is_ok'),('is_after','is_before'),('is_before','is_after'),('min','max'),('max','min'),('success_response','error_response'),('front','back')): sub(r'\b'+a+r'\(',b+'(','name')
        if s.endswith(';') and not s.startswith(('return','case','default','static','const','auto','using','struct','class','enum','}','break','friend','template','explicit','bool','Result','Maybe','void','inline','virtual','private','public')) and '=' not in s.split('(')[0].replace('==','').replace('+=','') or re.match(r'^(m_|[a-z_.]+\s*[+\-|]?= )',s) and s.endswith(';') and s.count('(')==s.count(')'):
            if s.count('(')==s.count(')') and s.count('{')==s.count('}'): add(re.sub(r'\S.*$',';',l),'del')
        if s in('break;','continue;'): add(l.replace(s,';'),'del')
    return L,out
os.makedirs(W,exist_ok=True); lock=threading.Lock()
def sh(c,**k): return subprocess.run(c,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def directives(p):
    d={}
    for line in open(p):
        m=re.match(r'//\s*(DEPS|SAN|LIBS|FLAGS|INCS):\s*(.*)',line)
        if m: d[m[1]]=m[2].split()
        elif not line.startswith('//'): break
    return d
from concurrent.futures import ThreadPoolExecutor
def obj(src,inc,out,san): return sh(CXX+[f'-I{inc}/src',f'-I{inc}',f'-I{inc}/node']+(SAN if san else ['-O2'])+['-c',src,'-o',out])
def base(h):
    hp=f'{V}/harness/{h}.cpp'; dv=directives(hp); san=dv.get('SAN',['yes'])[0]=='yes'; d=f'{W}/base/{h}'; os.makedirs(d,exist_ok=True); srcs=[]
    for x in dv.get('DEPS',[]): p=f'{R}/{x}'; srcs+=glob.glob(p+'/**/*.cpp',recursive=True) if os.path.isdir(p) else ([p] if os.path.exists(p) else [])
    srcs=sorted(set(srcs)); todo=[(s,f'{d}/{s[1:].replace("/","_")}.o') for s in srcs+[hp]]
    def go(t):
        if os.path.exists(t[1]): return
        r=obj(t[0],R,t[1],san)
        if r.returncode: print('base',t[0],r.stdout[:500])
    with ThreadPoolExecutor(8) as ex: list(ex.map(go,todo))
    return dict(todo),san,dv.get('LIBS',[])
def main():
    a=sys.argv[1:]; J=3; limit=40
    files=[]
    while a:
        x=a.pop(0)
        if x=='-j': J=int(a.pop(0))
        elif x=='--limit': limit=int(a.pop(0))
        else: files.append(x)
    q=queue.Queue(); bases={}; hot={}
    done=set()
    if os.path.exists(W+'/res.jsonl'):
        for l in open(W+'/res.jsonl'): d=json.loads(l); done.add((d['file'],d['new'],d['line']))
    for f in files:
        hs=[h for p,h in MAP if f.startswith(p)][0]
        if 'error' in f: hs=['errors']
        L,ms=mutants(f)
        for i,new,op in ms:
            if (f,new.strip(),i+1) in done: continue
            q.put((f,hs,L,i,new,op))
        for h in hs:
            if h not in bases: bases[h]=base(h)
    print(q.qsize(),'mutants',flush=True); res=open(W+'/res.jsonl','a')
    def work(n):
        d=f'{W}/w{n}'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d); sh(['cp','-r',R+'/src',R+'/node',d+'/'])
        while True:
            try: f,hs,L,i,new,op=q.get_nowait()
            except queue.Empty: return
            M=list(L); M[i]=new; open(f'{d}/{f}','w').write('\n'.join(M)); verdict='survived'; o={}; t=time.time()
            for h in hs:
                objs,san,libs=bases[h]
                if f.endswith('.hpp'):
                    bad=False; hd={}
                    for s0,p0 in objs.items():
                        k=(s0,f)
                        if k not in deps:
                            mm=sh(CXX+[f'-I{R}/src',f'-I{R}',f'-I{R}/node','-MM',s0]).stdout; deps[k]=f'{R}/{f}' in mm or ('/../' in mm and os.path.basename(f) in mm)
                        if not deps[k]: hd[s0]=p0; continue
                        src=s0.replace(R,d,1) if s0.startswith(R+'/') else s0; out=f'{d}/h_{len(hd)}.o'
                        if obj(src,d,out,san).returncode: bad=True; break
                        hd[s0]=out
                    if bad: verdict='no-build'; break
                    ol=list(hd.values())
                elif f'{R}/{f}' not in objs: continue
                elif san not in o:
                    r=obj(f'{d}/{f}',d,f'{d}/m{int(san)}.o',san); o[san]=r.returncode
                if f.endswith('.cpp') and o[san]: verdict='no-build'; break
                if f.endswith('.cpp'): ol=[(f'{d}/m{int(san)}.o' if s==f'{R}/{f}' else p) for s,p in objs.items() if os.path.exists(p)]
                hobj=[objs[f'{V}/harness/{h}.cpp']] if f.endswith('.cpp') else [hd[f'{V}/harness/{h}.cpp']]
                lib=d+'/lib.a'
                if os.path.exists(lib): os.unlink(lib)
                sh(['ar','rcs',lib]+[x for x in ol if x not in hobj]); r=sh(CXX+(SAN if san else [])+hobj+[lib]+libs+['-lpthread','-o',d+'/exe'])
                if r.returncode: verdict='no-link'; break
                for p in sorted(PROPS[h],key=lambda p:-hot.get((f,p),0)):
                    os.makedirs(d+'/work',exist_ok=True); rj=d+'/work/r.json'
                    if os.path.exists(rj): os.unlink(rj)
                    try: r=sh([d+'/exe','--property',p,'--tier','quick','--seed','1','--out',rj,'--work',d+'/work','--budget',str(limit),'--first'],timeout=400)
                    except subprocess.TimeoutExpired: verdict='timeout:'+p; break
                    if r.returncode==77: verdict='caught:'+p+':'+r.stdout.strip()[-60:]; hot[(f,p)]=time.time(); break
                    if not os.path.exists(rj): verdict='crash:'+p; break
                    if json.load(open(rj))['violations']: verdict='caught:'+p; break
                if verdict!='survived': break
            open(f'{d}/{f}','w').write('\n'.join(L))
            with lock:
                res.write(json.dumps(dict(file=f,line=i+1,op=op,old=L[i].strip(),new=new.strip(),verdict=verdict,t=round(time.time()-t)))+'\n'); res.flush()
                if verdict=='survived': print(f'SURVIVED {f}:{i+1} [{op}]\n     {L[i].strip()}\n  -> {new.strip()}',flush=True)
    ts=[threading.Thread(target=work,args=(n,)) for n in range(J)]; [t.start() for t in ts]; [t.join() for t in ts]
if __name__=='__main__': main()
