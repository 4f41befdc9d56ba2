#!/usr/bin/env python3
"""check.py PROP: decides one property of astro-float on the current /repo tree.

1. extract the functions under contract from /repo, weave the contracts of spec/*.vs into them, run Verus on the result;
2. a failing obligation in a function the property depends on is a violation; the oracle searches a failing input for it;
3. the oracle (bounded, exact arithmetic) runs the property on the real crate; a failing input is a violation.
"""
import sys, os, re, json, time, subprocess, hashlib, shutil, tempfile
ROOT=os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0,ROOT+'/tools')
import vg
from goals import GOALS
PROP=sys.argv[1]
TIER=os.environ.get('VERIF_TIER','quick') if '--thorough' not in sys.argv else 'thorough'
SEED=int(os.environ.get('VERIF_SEED','1'))
T0=time.time()
OUT=ROOT+'/out'
os.makedirs(OUT,exist_ok=True); os.makedirs(ROOT+'/evidence',exist_ok=True)
left=lambda: 860-(time.time()-T0) if TIER=='quick' else 3000-(time.time()-T0)
def log(*a): print('[%6.1f]'%(time.time()-T0),*a,flush=True)

# ------------------------------------------------------------------ builds
def tree_hash(d):
    h=hashlib.sha256()
    for b,ds,fs in os.walk(d):
        ds[:]=sorted(x for x in ds if x not in('target','.git'))
        for f in sorted(fs):
            p=b+'/'+f
            if os.path.isfile(p): h.update(p.encode()); h.update(open(p,'rb').read())
    return h.hexdigest()
def build_extract():
    h=tree_hash(ROOT+'/extract'); st=ROOT+'/extract/target/stamp'
    if os.path.exists(vg.BIN) and os.path.exists(st) and open(st).read()==h: return
    r=vg.sh(['cargo','build','--release','--offline'],cwd=ROOT+'/extract')
    if r.returncode!=0: print(r.stderr[-3000:]); print('extractor does not build'); sys.exit(2)
    open(st,'w').write(h)
ORACLE=ROOT+'/oracle/target/release/oracle'
def build_oracle():
    h=tree_hash('/repo/astro-float-num')+tree_hash(ROOT+'/oracle'); st=ROOT+'/oracle/target/stamp'
    if os.path.exists(ORACLE) and os.path.exists(st) and open(st).read()==h: return None
    if os.path.exists(ROOT+'/oracle/target'): vg.sh(['cargo','clean','--release','--offline','-p','astro-float-num'],cwd=ROOT+'/oracle')
    r=vg.sh(['cargo','build','--release','--offline'],cwd=ROOT+'/oracle')
    if r.returncode!=0: return r.stderr[-3000:]
    open(st,'w').write(h); return None

# ------------------------------------------------------------------ call graph over the extracted text
def closure(prop,g,text):
    """keys of the functions whose contracts the property depends on"""
    mods=vg.modules(); keys=list(text); stop=GOALS[prop].get('stop',{})
    byname={}
    for k in keys: byname.setdefault(k[1].split('::')[-1],[]).append(k)
    def callees(k):
        m,fn=k; ty=fn.split('::')[0] if '::' in fn else ''; t=text[k]; out=set()
        for mt in re.finditer(r'(?:([A-Za-z_]\w*)\s*(?:::<[^>]*>)?::)?\b([a-z_]\w*)\s*\(',t):
            q,n=mt.groups()
            if n not in byname: continue
            before=t[:mt.start()].rstrip()
            c=byname[n]
            if q:
                q2=ty if q=='Self' else q
                c=[x for x in c if x[1]==q2+'::'+n] or ([x for x in c if '::' not in x[1]] if q in('self','super','crate') else [])
            elif before.endswith('.'):
                if re.search(r'\bself\s*\.$',before) and any(x[1]==ty+'::'+n and x[0]==m for x in c): c=[x for x in c if x[1]==ty+'::'+n]
                elif re.search(r'\b(self|\w+)\s*\.\s*m\s*\.$',before): c=[x for x in c if x[1]=='Mantissa::'+n] or [x for x in c if '::' in x[1]]
                else: c=[x for x in c if '::' in x[1]]
            else:
                if before.endswith('fn'): continue
                c=[x for x in c if '::' not in x[1]]
            for x in c:
                if mods.index(x[0])<=mods.index(m): out.add(x)
        return out
    todo=[]
    for q in GOALS[prop]['goals']:
        m,f=q.split('::',1)
        if (m,f) in text: todo.append((m,f))
    seen=set(); stopped=set()
    while todo:
        k=todo.pop()
        if k in seen: continue
        if '::'.join(k) in stop: stopped.add(k); continue
        seen.add(k); todo+=callees(k)
    return seen,stopped

# ------------------------------------------------------------------ verification
class R: pass
def verify(tmp):
    """runs Verus; functions it cannot take are left out (reason recorded) and the rest is verified"""
    res=R(); res.drop={}; res.gone=set(); res.broken=None; res.runs=0; res.rlimit=None
    ext=vg.extract(vg.spec_files()); res.ext=ext
    for it in range(14):
        g=vg.generate(ext,drop=res.drop,remove=res.gone); res.g=g
        p=tmp+'/gen.rs'; open(p,'w').write(g.text)
        if left()<120: res.broken='no time left'; return res
        j,diags,t,err=vg.run_verus(p,None,rlimit=res.rlimit,extra=['--time-expanded'],timeout=min(600,left()-60)); res.runs+=1
        log(f'verus run {res.runs}: {t:.1f} s',None if j is None else j.get('verification-results'))
        if j is None and err=='timeout': res.broken='the verifier did not finish in time'; return res
        res.j,res.diags,res.err,res.t=j,diags,err,t
        errs=[d for d in diags if d.get('level')=='error' and not d['message'].startswith('aborting')]
        vr=(j or {}).get('verification-results',{})
        if j is not None and not vr.get('encountered-vir-error') and 'verified' in vr and not (vr['verified']==0 and vr['errors']==0) and not any(d.get('code') for d in errs):
            res.fail=collect(g,j,errs)
            rl=[k for k,v in res.fail.items() if v and all('rlimit' in m.lower() or 'resource limit' in m.lower() for m in v)]
            if rl and res.rlimit is None and left()>400: res.rlimit=40; log('retry with a larger resource limit',rl); continue
            for k in rl: res.drop[k]='resource limit of the solver'; res.fail.pop(k)
            return res
        new=False
        for d in errs:
            ks=[]
            for s in sorted(d.get('spans',[]),key=lambda s: not s['is_primary']):
                k=g.linemap.get(s['line_start']) if s['file_name'].endswith('gen.rs') else None
                if k: ks.append(k)
            if not ks: continue
            k=ks[0]
            if k[1]=='ghost' or k not in g.keys:
                k=next((x for x in ks if x in g.keys),None)
                if k is None: res.broken='the contracts do not fit the source: '+d['message'][:300]; continue
            if k in res.drop:
                if k not in res.gone: res.gone.add(k); new=True
            else: res.drop[k]='not accepted by the verifier: '+d['message'][:200]; new=True
        if not new:
            res.broken=res.broken or 'the verifier does not accept the program: '+'; '.join(d['message'] for d in errs)[:600]
            return res
        res.broken=None
    res.broken='too many functions outside the reach of the verifier'
    return res
def collect(g,j,errs):
    """failing functions -> messages"""
    fail={}
    for d in errs:
        k=None
        for s in sorted(d.get('spans',[]),key=lambda s: not s['is_primary']):
            q=g.linemap.get(s['line_start']) if s['file_name'].endswith('gen.rs') else None
            if q and (q in g.keys): k=q; break
            if q and k is None: k=q
        # the function being checked is the one in which the obligation arises
        for s in d.get('spans',[]):
            q=g.linemap.get(s['line_start']) if s['file_name'].endswith('gen.rs') else None
            if q in g.keys and g.status.get(q)=='verify' and re.search(r'at (the end of the function|this exit)|at this|loop',s.get('label') or ''): k=q
        fail.setdefault(k or ('?','?'),[]).append(d['message'])
    units={}
    for m in j['times-ms']['smt']['smt-run-module-times']:
        for f in m['function-breakdown']:
            n=f['function'].split('::'); key=(n[1],'::'.join(n[2:]))
            units.setdefault(key,[]).append(f)
    for k,v in units.items():
        if not all(x['success'] for x in v) and k in g.keys and k not in fail: fail[k]=['obligation not discharged']
    # errors located in a callee's contract are attributed through the unit that failed
    bad={k for k,v in units.items() if not all(x['success'] for x in v)}
    out={}
    for k,m in fail.items():
        if k in bad or k not in g.keys: out[k]=m
        else:
            for b in bad: out.setdefault(b,[]).extend(m) if b not in fail else None
            if not bad: out[k]=m
    return out

# ------------------------------------------------------------------ oracle
def oracle(n,secs,seed,tag,threads=8): return oracle_end(oracle_start(n,secs,seed,tag,threads))
def oracle_start(n,secs,seed,tag,threads=8):
    f=f'{OUT}/{PROP}-{tag}.case'
    if os.path.exists(f): os.unlink(f)
    cmd=[ORACLE,PROP,'--n',str(n),'--secs',str(int(secs)),'--seed',str(seed),'--threads',str(threads),'--maxfail','1','--out',f]
    so=tempfile.TemporaryFile('w+'); se=tempfile.TemporaryFile('w+')
    return dict(p=subprocess.Popen(cmd,stdout=so,stderr=se),so=so,se=se,cmd=cmd,f=f,end=time.time()+secs+200)
def oracle_end(h):
    r=R(); p=h['p']; f=h['f']; cmd=h['cmd']
    try: p.wait(timeout=max(1,h['end']-time.time()))
    except subprocess.TimeoutExpired: p.kill(); p.wait(); return dict(ok=None,text='timeout')
    for n,x in(('stdout',h['so']),('stderr',h['se'])): x.seek(0); setattr(r,n,x.read())
    r.returncode=p.returncode
    m=re.search(r'SUMMARY \S+ evaluations=(\d+) distinct=(\d+) fails=(\d+) secs=([\d.]+) ops=(.*)',r.stdout)
    s=re.search(r'SAMPLE (.*)',r.stdout)
    d=dict(ok=r.returncode==0,text=r.stdout[-4000:],cmd=' '.join(cmd),evaluations=int(m.group(1)) if m else 0,distinct=int(m.group(2)) if m else 0,ops=m.group(5) if m else '',sample=s.group(1)[:600] if s else '',secs=float(m.group(4)) if m else 0)
    if r.returncode!=0:
        d['ok']=False if ('FAIL' in r.stdout) else None
        if d['ok'] is None: d['text']+=r.stderr[-2000:]
        if not os.path.exists(f): open(f,'w').write(r.stdout[-4000:])
        d['file']=f
    return d

def known():
    out=[]
    try:
        for l in open(ROOT+'/known_findings.txt'):
            m=re.match(r'KNOWN-FINDING: property=(\S+) (.*)',l.strip())
            if m: out.append((m.group(1),m.group(2)))
    except OSError: pass
    return out

def main():
    build_extract()
    oerr=build_oracle()
    if oerr: log('the oracle does not build against this tree:\n'+oerr)
    tmp=tempfile.mkdtemp(prefix='verif-')
    viol=[]; ev=dict(property=PROP,tier=TIER,seed=SEED,level='proof',coverage={},assumptions=[],wall_s=0,violations=0)
    quickn=dict(n=4*10**6,secs=40) if TIER=='quick' else dict(n=30*10**6,secs=600)
    run=None if oerr else oracle_start(quickn['n'],quickn['secs'],SEED,'bounded',threads=4)
    try:
        try: res=verify(tmp)
        except RuntimeError as e: res=R(); res.broken=str(e); res.drop={}; res.g=None
        orc=None
        seen=set(); stopped=set(); bad={}
        if res.g is not None:
            g=res.g; L=g.text.split('\n'); text={k:[] for k in g.keys}
            for ln,k in g.linemap.items():
                if k in text: text[k].append(L[ln-1])
            full={}
            for k in text:
                b=g.keys[k]; it=res.ext.get((b.arg.split('|')[0],vg.norm(b.arg.split('|')[1]),b.arg.split('|')[2],''))
                full[k]='\n'.join(it.lines) if it is not None and it.kind!='error' else ''
            seen,stopped=closure(PROP,g,full)
        if res.g is not None and not res.broken:
            bad={k:v for k,v in res.fail.items() if k in seen or (k not in g.keys)}
        if res.broken: log('proof not decided in this run:',res.broken)
        for k,v in bad.items(): log('FAILED OBLIGATION','::'.join(k),v)
        if not oerr:
            orc=oracle_end(run); run=None
            if bad and orc['ok']: # search for a failing input
                orc=oracle(4*10**7,min(300,max(60,left()-200)),SEED+1,'search')
            log('oracle:',{k:v for k,v in orc.items() if k in('ok','evaluations','distinct','secs','ops')})
            if orc['ok'] is False:
                log(orc['text'][-1500:]); viol.append((orc['file'],False,None))
            elif orc['ok'] is None: log('oracle ended abnormally:',orc['text'][-800:])
        if bad and not viol:
            f=f'{OUT}/{PROP}-obligation.txt'
            with open(f,'w') as o:
                o.write(f'# property {PROP}: obligations of the verifier that are no longer discharged\n')
                for k,v in bad.items(): o.write(f'obligation of {"::".join(k)}: {"; ".join(v)}\n')
                o.write('\n# output of Verus\n'); 
                for d in res.diags:
                    if d.get('level')=='error': vg.show(d,g,o)
                o.write('\n'+'\n'.join(x.get('rendered','')[:3000] for x in res.diags if x.get('level')=='error'))
            viol.append((f,True,bad))
        # ------------------------------------------------------------ evidence
        cov=ev['coverage']
        cov['checker_cmd']=f'python3 check.py {PROP}  (extract/target/release/extract | tools/vg.py generate | verus gen.rs --output-json --time-expanded)'
        fns=[]; oor={}; assumed=[]; units={}
        if res.g is not None and not res.broken:
            for m in res.j['times-ms']['smt']['smt-run-module-times']:
                for f in m['function-breakdown']:
                    n=f['function'].split('::'); units.setdefault((n[1],'::'.join(n[2:])),[]).append((f['mode:'],f['time-micros'],f['success']))
            for k in sorted(seen):
                st=g.status.get(k,'?')
                if st=='verify' and k not in res.drop: fns.append(k)
                elif st=='assumed': assumed.append('::'.join(k))
                else: oor['::'.join(k)]=res.drop.get(k,st)
            lem=[k for k,v in units.items() if any(x[0]=='proof' for x in v)]
            lemok=[k for k in lem if all(x[2] for x in units[k])]
            ok=[k for k in fns if k not in res.fail]
            cov['obligations']=len(fns)+len(lem); cov['discharged']=len(ok)+len(lemok)
            cov['obligation_unit']='one verification unit of Verus: a function of /repo with its contract, loop invariants, call preconditions, arithmetic and index obligations, or a lemma of the contract library'
            cov['functions_under_contract']=['::'.join(k) for k in fns]
            cov['smt_time_s']=round(sum(x[1] for k in fns+lem for x in units.get(k,[]))/1e6,2)
            cov['back_end']='Verus (Z3)'
            cov['verus_summary']=res.j['verification-results']
            cov['contract_lines']=g.ghostlines; cov['code_lines']=g.codelines
        else:
            cov['obligations']=0; cov['discharged']=0; cov['undecided']=res.broken
        cov['out_of_reach_this_run']=oor
        cov['assumed_contracts']=assumed+[f'{"::".join(k)} (discharged by the check of {GOALS[PROP]["stop"]["::".join(k)]})' for k in sorted(stopped)]
        cov['trusted_base']=trusted(res)
        if orc: cov['bounded_oracle']=dict(kind='bounded: sampled executions of the real crate against exact integer arithmetic; not counted as proved',evaluations=orc.get('evaluations',0),distinct=orc.get('distinct',0),ops=orc.get('ops',''),seconds=orc.get('secs',0),sample=orc.get('sample',''))
        if TIER=='thorough' and res.g is not None and not res.broken and not bad: cov['vacuity']=vacuity(tmp,res,seen)
        if cov.get('vacuity',{}).get('vacuous'):
            log('vacuous contracts:',cov['vacuity']['vacuous']); 
        ev['assumptions']=['the extraction keeps the meaning of the source (desugaring listed in DESIGN.md)','64-bit target']+cov['assumed_contracts']
        ev['violations']=len(viol); ev['wall_s']=round(time.time()-T0,1)
        json.dump(ev,open(f'{ROOT}/evidence/{PROP}.json','w'),indent=1)
        log('obligations',cov['obligations'],'discharged',cov['discharged'],'functions',len(fns),'out of reach',oor)
    finally:
        shutil.rmtree(tmp,ignore_errors=True)
        if run is not None: run['p'].kill()
    for p,t in known():
        if p==PROP: print(f'KNOWN-FINDING: property={p} {t}')
    if viol:
        f,nf,_=viol[0]
        print(f'VIOLATION property={PROP} replay={f}'+(' no-failing-input-found' if nf else ''))
        sys.exit(1)
    print(f'OK property={PROP}')
    sys.exit(0)

def trusted(res):
    t=['Verus and Z3','vstd','rustc','the extractor (extract/, tools/vg.py)']
    n=0
    for m in vg.modules():
        for b in vg.read_spec(m):
            if b.kind in('ext','ghost','fn'):
                tx='\n'.join(b.lines)
                if b.kind=='ghost':
                    for x in re.findall(r'(assume_specification[^;]*?\[\s*[^\]]*\]|external_body\)\]\s*(?:pub )?(?:const )?(?:proof |spec |struct |fn )*\w+|external_type_specification|axiom fn \w+|admit\(\)|assume\()',tx): t.append(f'{m}: '+' '.join(x.split())[:160])
    return t
def vacuity(tmp,res,seen):
    """an assertion of false at the start of a function must fail, otherwise its precondition excludes everything"""
    g=res.g; L=g.text.split('\n'); starts={}
    out=list(L); n=0; where={}
    done=set()
    for i,l in enumerate(L):
        k=g.linemap.get(i+1)
        if k in seen and g.status.get(k)=='verify' and k not in done and l.strip() in('{','{}') and l.startswith('{'):
            out[i]='{ proof { assert(false); }'+(' }' if l.strip()=='{}' else ''); done.add(k); where[i+1]=k
    p=tmp+'/vac.rs'; open(p,'w').write('\n'.join(out))
    j,diags,t,err=vg.run_verus(p,None,timeout=max(60,left()-30))
    hit=set()
    for d in diags:
        if d.get('level')=='error':
            for s in d.get('spans',[]):
                if s['line_start'] in where: hit.add(where[s['line_start']])
    return dict(functions=len(done),reachable=len(hit),vacuous=['::'.join(k) for k in done-hit])
main()
