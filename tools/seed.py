#!/usr/bin/env python3
"""seed.py DEFS.py [ID…]: makes /verif/seeded/<id>/ from definitions (edits of the source, a demonstration) and confirms,
in a scratch copy, that the change builds, passes the stable tests and fails its demonstration."""
import sys,os,subprocess,json,shutil
ROOT='/verif/seeded'; S='/tmp/seedwork'
DEMO='''#!/bin/sh
# builds main.rs against the astro-float-num of the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
w=$(mktemp -d) || exit 3
mkdir -p "$w/src" && cp "$here/main.rs" "$w/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\nastro-float-num = { path = "%s/astro-float-num" }\\n' "$repo" > "$w/Cargo.toml"
(cd "$w" && CARGO_TARGET_DIR="$w/target" timeout 250 cargo run -q --offline)
rc=$?
find "$w" -depth -delete
exit $rc
'''
def sh(c,**k): return subprocess.run(c,shell=isinstance(c,str),capture_output=True,text=True,**k)
def main():
    ns={}; exec(open(sys.argv[1]).read(),ns)
    want=sys.argv[2:]
    if not os.path.isdir(S): sh(['cp','-a','/repo',S])
    sh('git checkout -q -- . && git clean -fdq -e target',cwd=S); sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD',cwd=S)
    base=json.load(open('/opt/vp/BASELINE.json'))
    for b in ns['BUGS']:
        if want and b['id'] not in want: continue
        print('#',b['id'],flush=True)
        d=f"{ROOT}/{b['id']}"
        os.makedirs(d,exist_ok=True)
        sh('git checkout -q -- .',cwd=S)
        bad=None
        for f,o,n in b['edits']:
            p=f'{S}/{f}'; t=open(p).read()
            if t.count(o)!=1: bad=f'anchor {t.count(o)} times: {o!r}'; break
            open(p,'w').write(t.replace(o,n))
        if bad: print(b['id'],bad); continue
        diff=sh('git diff',cwd=S).stdout
        open(d+'/patch.diff','w').write(diff)
        open(d+'/main.rs','w').write(b['demo'])
        open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
        json.dump(dict(property=b['property'],needs=b['needs'],what_it_breaks=b['breaks']),open(d+'/meta.json','w'),indent=1)
        r1=sh(['sh',d+'/demo.sh'],cwd='/repo'); r2=sh(['sh',d+'/demo.sh'],cwd=S)
        cmd='cargo test --workspace --exclude astro-float --no-fail-fast --offline -- --test-threads 8; cargo test -p astro-float --lib --no-fail-fast --offline -- --test-threads 8; cargo test -p astro-float --doc --no-fail-fast --offline -- --test-threads 8'
        t=sh('. /opt/vp/env.sh; timeout 240 bash -c "'+cmd+'"; echo RC $?',cwd=S,executable='/bin/bash')
        import re
        failed=re.findall(r'^test (\S+).*\.\.\. FAILED',t.stdout,re.M); ok=len(re.findall(r'\.\.\. ok',t.stdout))
        print(b['id'],'clean',r1.returncode,'patched',r2.returncode,'tests ok',ok,'failed',failed, '' if r1.returncode==0 else r1.stderr[-800:], '' if r2.returncode else r2.stdout[-300:],flush=True)
        if t.stdout.find('could not compile')>=0 or 'error: could not' in t.stderr: print(t.stderr[-2000:])
    sh('git checkout -q -- .',cwd=S)
main()
