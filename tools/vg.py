#!/usr/bin/env python3
"""Extract functions from /repo, weave contracts from /verif/spec/*.vs into them, run Verus.

spec/<module>.vs is a sequence of blocks, each starting with a line `%% ...`:
  %% ghost                      raw Verus text (uses, spec functions, lemmas, trusted declarations)
  %% item KIND|FILE|NAME [attr] a struct/enum/const/type taken from FILE; attr lines are written in front of it
  %% fn FILE|HDR|NAME           a function taken from FILE; block text = the extracted text with ghost lines, which start with '@'
  %% inh FILE|HDR|NAME|NEW      a method of a trait implementation, checked as inherent method NEW (trait methods cannot have preconditions)
  %% ext FILE|HDR|NAME          the same, but only the signature is used: the body is not verified (assumed contract)
The text of the function that is verified is always the text just extracted from /repo plus the '@' lines.
"""
import sys, os, re, subprocess, json, difflib, hashlib, time
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC=ROOT+'/spec'
SRC=os.environ.get('VG_SRC','/repo/astro-float-num/src') # VG_SRC: editing aid, unset in checks
VERUS='/opt/veriftools/verus/verus'
BIN=ROOT+'/extract/target/release/extract'

def sh(cmd,**k): return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,**k)

# ---------------------------------------------------------------- extraction
def norm(h): return re.sub(r'\s+','',h)

def split_braces(lines):
    """puts the `{` of functions and loops on its own line, and names the return value"""
    out=[]; hdr=True
    for l in lines:
        ind=l[:len(l)-len(l.lstrip())]
        if hdr:
            m=re.match(r'^(.*?)\s*\{(\s*\})?$',l)
            if m:
                h=m.group(1)
                if h.strip():
                    g=re.match(r'^(.*)-> (.*)$',h)
                    # only the arrow of the function itself
                    if g and g.group(1).rstrip().endswith(')'): h=g.group(1)+'-> (ret: '+g.group(2).rstrip()+')'
                    out.append(h)
                out.append(ind+'{')
                if m.group(2): out.append(ind+'}')
                hdr=False
            else:
                g=re.match(r'^(\).*|(?:pub )?(?:const )?fn .*\) ?)-> (.*)$',l)
                if g: l=g.group(1)+'-> (ret: '+g.group(2).rstrip()+')'
                out.append(l)
            continue
        m=re.match(r"^(\s*(?:'\w+: )?(?:while\b.*|loop))\s\{$",l)
        if m: out+= [m.group(1),ind+'{']
        else: out.append(l)
    return out

class Item: pass

def extract(files, src=None):
    src=src or SRC
    r=sh([BIN,src]+files)
    if r.returncode!=0: raise RuntimeError('extractor failed: '+r.stderr[-2000:])
    items=[]; cur=None
    for l in r.stdout.split('\n'):
        if l.startswith('#ITEM '):
            cur=Item(); cur.kind,cur.file,cur.hdr,cur.name=l[6:].split('|',3); cur.text=[]
        elif l=='#END': items.append(cur); cur=None
        elif cur is not None: cur.text.append(l)
    # one rustfmt call
    buf=[]
    for n,i in enumerate(items):
        if i.kind in('error','impl'): continue
        buf.append('const MARK_%d_: () = ();'%n); buf+=i.text
    buf.append('const MARK_END_: () = ();')
    r=sh(['rustfmt','--edition','2021','--config','max_width=110,use_small_heuristics=Default,newline_style=Unix,reorder_imports=false,merge_derives=false'],input='\n'.join(buf))
    if r.returncode!=0: raise RuntimeError('rustfmt failed: '+r.stderr[-2000:])
    cur=None; acc={}
    for l in r.stdout.split('\n'):
        m=re.match(r'^const MARK_(\d+|END)_: \(\) = \(\);$',l)
        if m: cur=None if m.group(1)=='END' else int(m.group(1)); acc[cur]=[]; continue
        if cur is not None: acc[cur].append(l)
    res={}
    for n,i in enumerate(items):
        if i.kind in('error','impl'): i.lines=i.text
        else:
            ls=[x for x in acc[n]]
            while ls and not ls[-1].strip(): ls.pop()
            while ls and not ls[0].strip(): ls.pop(0)
            ls=[x for x in ls if x.strip()]
            if i.kind in('fn','traitfn'):
                ls=[x[4:] if x.startswith('    ') else x for x in ls[1:-1]]
                ls=split_braces(ls)
            i.lines=ls
        res.setdefault((i.file,norm(i.hdr),i.name,'impl' if i.kind=='impl' else ''),i)
    return res

# ---------------------------------------------------------------- spec files
class Block:
    def __init__(s,kind,arg,lines): s.kind,s.arg,s.lines=kind,arg,lines

def read_spec(mod):
    bl=[]; cur=None
    for l in open(f'{SPEC}/{mod}.vs').read().split('\n'):
        if l.startswith('%% '):
            p=l[3:].split(' ',1); cur=Block(p[0],p[1] if len(p)>1 else '',[]); bl.append(cur)
        elif cur is not None: cur.lines.append(l)
    return bl

def modules():
    o=[l.strip() for l in open(f'{SPEC}/MODULES').read().split('\n') if l.strip() and not l.startswith('#')]
    return [x.split()[0] for x in o]

IDENT=re.compile(r"[A-Za-z_]\w*")
def toks(l): return re.findall(r"[A-Za-z_]\w*|\d\w*|\S",l)

def merge(old,new):
    """old: annotated lines; new: extracted lines. returns annotated new lines or None when a ghost block lost its anchor"""
    code=[]; ghosts=[]   # ghosts: (index of code line that follows, lines)
    for l in old:
        if l.lstrip().startswith('@'):
            if ghosts and ghosts[-1][0]==len(code): ghosts[-1][1].append(l)
            else: ghosts.append((len(code),[l]))
        elif l.strip(): code.append(l)
    if [c.strip() for c in code]==[c.strip() for c in new]:
        mp={i:i for i in range(len(code))}; ren={}
    else:
        sm=difflib.SequenceMatcher(None,[c.strip() for c in code],[c.strip() for c in new],autojunk=False)
        mp={}; ren={}; bad=False
        for tag,a,b,c,d in sm.get_opcodes():
            if tag=='equal':
                for k in range(b-a): mp[a+k]=c+k
            elif tag=='replace':
                if b-a==d-c:
                    for k in range(b-a): mp[a+k]=c+k
                else:
                    # align lines of the same kind greedily
                    j=c
                    for i in range(a,b):
                        best=None
                        for k in range(j,d):
                            r=difflib.SequenceMatcher(None,toks(code[i]),toks(new[k])).ratio()
                            if r>0.6 and (best is None or r>best[0]): best=(r,k)
                        if best: mp[i]=best[1]; j=best[1]+1
        # consistent renaming of local names
        oldids=set(t for l in code for t in IDENT.findall(l)); newids=set(t for l in new for t in IDENT.findall(l))
        cand={}
        for i,j in mp.items():
            x,y=toks(code[i]),toks(new[j])
            if len(x)==len(y):
                for p,q in zip(x,y):
                    if p!=q and IDENT.fullmatch(p) and IDENT.fullmatch(q): cand.setdefault(p,set()).add(q)
        for p,q in cand.items():
            if len(q)==1 and p not in newids and list(q)[0] not in oldids: ren[p]=list(q)[0]
    ins={}
    for pos,ls in ghosts:
        hdr = pos>0 and (code[pos].strip()=='{' if pos<len(code) else False)
        if hdr:
            # contract or loop invariant: keep in front of the brace that follows
            if pos in mp and new[mp[pos]].strip()=='{': at=mp[pos]
            elif pos-1 in mp and mp[pos-1]+1<len(new) and new[mp[pos-1]+1].strip()=='{': at=mp[pos-1]+1
            else: return None
            # the header line itself must be a loop or function header in the new text too
        elif pos-1 in mp: at=mp[pos-1]+1
        elif pos in mp: at=mp[pos]
        else: return None
        if ren: ls=[re.sub(r'[A-Za-z_]\w*',lambda m: ren.get(m.group(0),m.group(0)),l) for l in ls]
        ins.setdefault(at,[]).extend(ls)
    out=[]
    for j in range(len(new)+1):
        out+=ins.get(j,[])
        if j<len(new): out.append(new[j])
    return out

def erase(lines): return [l for l in lines if not l.lstrip().startswith('@')]

class Gen: pass
def tyname(h):
    h=h.split(' for ')[-1] if ' for ' in h else re.sub(r'^impl','',h).strip()
    h=re.sub(r'^<[^>]*>','',h).strip()
    return re.split(r'[ <]',h)[0]

def generate(ext, drop=(), mods=None, remove=()):
    """returns Gen with .text, .linemap (line -> (module,fnkey)), .status {fnkey: ...}"""
    g=Gen(); out=[]; lm={}; g.status={}; g.keys={}; g.ghostlines=0; g.codelines=0
    def w(l,key=None):
        out.append(l); 
        if key: lm[len(out)]=key
    ms=mods or modules()
    w('#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_assignments, non_snake_case, unused_labels, unused_braces, unreachable_code, unused_must_use)]')
    w('use vstd::prelude::*;'); w('pub mod all {')
    for m in ms: w(f'    pub use crate::{m}::*;')
    w('}')
    for m in ms:
        w(f'pub mod {m} {{'); w('use vstd::prelude::*;'); w('use crate::all::*;'); w('verus! {')
        impls={}
        for b in read_spec(m):
            if b.kind=='ghost':
                for l in b.lines: w(l,(m,'ghost'))
                continue
            if b.kind=='implghost': continue
            if b.kind=='disc':
                # %% disc FILE ENUM FUNCTION TYPE: function that gives the discriminants of a field-less enum, as the enum in FILE declares them
                f,en,fnm,ty=b.arg.split()
                it=next((x for x in ext.values() if x.file==f and x.name==en and x.kind=='enum'),None)
                vs=re.findall(r'(\w+)\s*=\s*(-?\s*\w+)\s*,',' '.join(it.lines)) if it else []
                if not vs: g.status[(m,fnm)]='missing item'; continue
                arms=', '.join(f'{en}::{v} => {x.replace(" ","")}{ty}' for v,x in vs)
                w(f'pub fn {fnm}(x: {en}) -> (r: {ty})',(m,fnm)); w(f'    ensures r == (match x {{ {arms} }}),',(m,fnm)); w(f'{{ match x {{ {arms} }} }}',(m,fnm))
                continue
            new=None
            if b.kind=='inh': f,h,n,new=b.arg.split('|')
            else: f,h,n=b.arg.split('|',2)
            if b.kind=='item':
                it=next((x for x in ext.values() if x.file==f and x.name==n and x.kind in('struct','enum','const','type')),None)
                if it is None: g.status[(m,n)]='missing item'; continue
                ls=it.lines
                if it.kind=='const' and b.lines and b.lines[0].strip()=='fold':
                    v=fold(ext).get(n)
                    if v is None: g.status[(m,n)]='constant not evaluated'; continue
                    ls=[re.sub(r'=.*;$','= '+v+';',' '.join(x.strip() for x in it.lines))]
                    for l in b.lines[1:]: w(l,(m,n))
                else:
                    for l in b.lines: w(l,(m,n))
                for l in ls: w(l,(m,n))
                continue
            key=(m,(tyname(h)+'::' if h else '')+(new or n))
            hdr=h
            it=ext.get((f,norm(hdr),n,''))
            g.keys[key]=b
            if key in remove: g.status[key]='removed: '+str(drop.get(key,'')); it=None if not (it is not None and it.kind=='traitfn') else it
            if key in remove and it is None: continue
            if it is None: g.status[key]='not found in source'; continue
            if it.kind=='error': g.status[key]='not translated: '+' '.join(it.text); ls=None
            isx=b.kind=='ext'
            lines=None
            if it.kind!='error':
                if isx:
                    k=next((i for i,l in enumerate(it.lines) if l.strip()=='{'),None)
                    olds=[]; 
                    for l in b.lines:
                        if l.strip()=='{': break
                        olds.append(l)
                    lines=merge(olds+['{'],it.lines[:k]+['{'])
                    if lines is None: g.status[key]='signature changed'; continue
                    lines=['@#[verifier::external_body]']+lines+['unimplemented!()','}']
                    g.status[key]='assumed'
                else:
                    lines=merge(b.lines,it.lines)
                    if lines is None: g.status[key]='lost anchor'
                    elif erase(lines)!=it.lines: g.status[key]='internal: text differs from extraction'; lines=None
                    else: g.status[key]='verify'; g.codelines+=len(it.lines); g.ghostlines+=len(lines)-len(it.lines)
            if lines is None or key in drop:
                # keep the contract so that callers can still be checked; the body is not verified in this run
                olds=[]
                for l in b.lines:
                    if l.strip()=='{': break
                    olds.append(l)
                if it.kind!='error':
                    k=next((i for i,l in enumerate(it.lines) if l.strip()=='{'),0)
                    mm=merge(olds+['{'],it.lines[:k]+['{'])
                    if mm is not None: olds=mm[:-1]
                    else:
                        g.status[key]='signature changed'
                lines=['@#[verifier::external_body]']+olds+['{','unimplemented!()','}']
                if key in drop: g.status[key]='out of reach: '+str(drop[key] if isinstance(drop,dict) else '')
            lines=[re.sub(r'^(\s*)@',r'\1',l) for l in lines]
            if new:
                # a method of a trait, checked as an inherent method of the type (its own name, the same text)
                ih='impl'+("<'a> " if "'a" in h else ' ')+tyname(h)
                w(ih+' {')
                done=False
                for l in lines:
                    if not done and re.search(r'\bfn '+n+r'\b',l): l=re.sub(r'\bfn '+n+r'\b','fn '+new,l).replace('Self::Output','Self'); done=True
                    w(l,key)
                w('}')
            elif it.kind=='traitfn' or (' for ' in h):
                impls.setdefault(h,[]).append((key,lines))
                if len([x for x in read_spec_cached(m) if x.kind in('fn','ext') and x.arg.split('|',2)[1]==h])==len(impls[h]):
                    w(h+' {')
                    a=ext.get((f,norm(h),'','impl'))
                    if a:
                        for l in a.lines: w(l)
                    # extra ghost members
                    for x in read_spec_cached(m):
                        if x.kind=='implghost' and norm(x.arg)==norm(h):
                            for l in x.lines: w(l,(m,'ghost'))
                    for k2,ll in impls[h]:
                        for l in ll: w(l,k2)
                    w('}')
            else:
                if h: w(h+' {')
                for l in lines: w(l,key)
                if h: w('}')
        w('} // verus!'); w('}')
    w('fn main() {}')
    g.text='\n'.join(out)+'\n'; g.linemap=lm
    return g
_f={}
def fold(ext):
    """values of the constants of defs.rs, computed by rustc"""
    key=id(ext)
    if key in _f: return _f[key]
    cs=[i for i in ext.values() if i.kind in('const','type') and i.file=='defs.rs']
    t='#![allow(dead_code)]\n'+'\n'.join('\n'.join(i.lines) for i in cs)+'\nfn main(){\n'+'\n'.join('println!("%s={}",%s);'%(i.name,i.name) for i in cs if i.kind=='const')+'\n}\n'
    import tempfile
    d=tempfile.mkdtemp(); open(d+'/c.rs','w').write(t)
    r=sh(['rustc','--edition','2021','-o',d+'/c',d+'/c.rs'])
    out={}
    if r.returncode==0:
        for l in sh([d+'/c']).stdout.split('\n'):
            if '=' in l: k,v=l.split('=',1); out[k]=v
    for x in os.listdir(d): os.unlink(d+'/'+x)
    os.rmdir(d)
    _f[key]=out
    return out
_c={}
def read_spec_cached(m):
    if m not in _c: _c[m]=read_spec(m)
    return _c[m]

def spec_files():
    fs=set()
    for m in modules():
        for b in read_spec(m):
            if b.kind in('fn','ext','item','inh'): fs.add(b.arg.split('|')[0])
    return sorted(fs)

VERR=re.compile(r'^(precondition not satisfied|postcondition not satisfied|invariant not satisfied|loop invariant not satisfied|assertion failed|possible arithmetic|possible division|possible bit shift|decreases not satisfied|loop must have a decreases|unable to prove|constructed value may fail|bitvector|nonlinear|assertion by|assert|failed|cannot show|split|requires not satisfied|could not prove|index out of|possible|type invariant|while loop|not all|recommendation|mismatched)',re.I)

def run_verus(path,mods,fn=None,rlimit=None,extra=(),threads=8,timeout=840):
    cmd=[VERUS,path,'--output-json','--error-format=json','--num-threads',str(threads),'--multiple-errors','3']
    for m in mods or []: cmd+=['--verify-only-module',m]
    if fn: cmd+=['--verify-function',fn]
    if rlimit: cmd+=['--rlimit',str(rlimit)]
    cmd+=list(extra)
    t=time.time()
    try: r=sh(cmd,timeout=timeout,cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired: return None,[],time.time()-t,'timeout'
    diags=[]
    for l in r.stderr.split('\n'):
        if l.startswith('{'):
            try: d=json.loads(l)
            except Exception: continue
            if d.get('$message_type')=='diagnostic' or 'message' in d: diags.append(d)
    j=None
    k=r.stdout.find('{')
    if k>=0:
        try: j=json.loads(r.stdout[k:])
        except Exception: j=None
    return j,diags,time.time()-t,r.stderr

def show(d,g,out=sys.stdout):
    sp=[s for s in d.get('spans',[])]
    sp.sort(key=lambda s: not s['is_primary'])
    key=None
    for s in sp:
        key=g.linemap.get(s['line_start'])
        if key: break
    print(f"[{d['level']}] {key}: {d['message']}",file=out)
    L=g.text.split('\n')
    for s in sp:
        print(f"    {s['line_start']}: {L[s['line_start']-1].strip()[:200] if s['line_start']<=len(L) and s['file_name'].endswith('gen.rs') else s['file_name']}   <-- {s.get('label')}",file=out)
    for c in d.get('children',[]):
        if c.get('message'): print('      note:',c['message'][:300],file=out)

if __name__=='__main__':
    a=sys.argv[1:]
    if a[0]=='show':       # show FILE [NAME]
        for k,i in extract([a[1]]).items():
            if len(a)<3 or i.name==a[2]: print(f"%% fn {i.file}|{i.hdr}|{i.name}" if i.kind in('fn','traitfn') else f"%% item {i.file}||{i.name}   ({i.kind})"); print('\n'.join(i.lines))
    elif a[0]=='add':      # add MODULE FILE NAME...  appends extracted text to the spec module
        e=extract([a[2]])
        with open(f'{SPEC}/{a[1]}.vs','a') as f:
            for n in a[3:]:
                kind='fn'
                if n.startswith('ext:'): kind='ext'; n=n[4:]
                c=[i for i in e.values() if i.name==n and i.kind in('fn','traitfn')]
                if not c: print('no',n); continue
                for i in c:
                    ls=i.lines
                    if kind=='ext':
                        k=next(q for q,l in enumerate(ls) if l.strip()=='{'); ls=ls[:k+1]
                    f.write(f"%% {kind} {i.file}|{i.hdr}|{i.name}\n"+'\n'.join(ls)+'\n')
    elif a[0]=='check':    # check MODULES [--fn NAME] [--rlimit N]
        mods=a[1].split(',') if len(a)>1 and a[1]!='all' else None
        fn=a[a.index('--fn')+1] if '--fn' in a else None
        rl=a[a.index('--rlimit')+1] if '--rlimit' in a else None
        d='/tmp/vgen'; os.makedirs(d,exist_ok=True)
        p=f'{d}/gen.rs' if '--out' not in a else a[a.index('--out')+1]
        g=generate(extract(spec_files()))
        open(p,'w').write(g.text)
        for k,s in g.status.items():
            if s not in('verify','assumed'): print('STATUS',k,s)
        ex=a[a.index('--')+1:] if '--' in a else []
        j,di,t,err=run_verus(p,mods,fn,rl,ex)
        n=0
        for x in di:
            if x['level']=='error' or '-w' in a:
                if x['message'].startswith('aborting'): continue
                show(x,g); n+=1
                if n>40: break
        if j is None and not n: print(err[-3000:])
        if j: print(j.get('verification-results'))
        print('%.1fs'%t)
