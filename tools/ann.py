"""editing help: insert ghost lines in a block of a spec module.
ann('num', {'new': dict(hdr=[...], at=[('code line substring', n-th match, 'before'|'after', [lines])])})"""
import os
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def ann(mod,d,file=None):
    p=f'{ROOT}/spec/{mod}.vs'; L=open(p).read().split('\n')
    for name,a in d.items():
        hits=[i for i,l in enumerate(L) if l.startswith('%% ') and l.split('|')[-1]==name and l.count('|')>=2]
        if '#' in name: nm,k=name.split('#'); hits=[[i for i,l in enumerate(L) if l.startswith('%% ') and l.split('|')[-1]==nm and l.count('|')>=2][int(k)]]
        if not hits: print('no block',name); continue
        i=hits[0]; j=i+1
        while j<len(L) and not L[j].startswith('%% '): j+=1
        B=[l for l in L[i+1:j]]
        if a.get('reset'): B=[l for l in B if not l.lstrip().startswith('@')]
        for pat,n,where,ls in a.get('at',[]):
            m=[k for k,l in enumerate(B) if pat in l and not l.lstrip().startswith('@')]
            if len(m)<=n: print('no line',name,pat); continue
            k=m[n]+(1 if where=='after' else 0)
            B[k:k]=['@'+x for x in ls]
        if a.get('hdr'):
            k=[q for q,l in enumerate(B) if l.strip()=='{'][0]
            B[k:k]=['@    '+x for x in a['hdr']]
        if a.get('attr'): B[0:0]=['@'+x for x in a['attr']]
        L[i+1:j]=B
    open(p,'w').write('\n'.join(L))
