#!/usr/bin/env python3
"""Development helper: records a planted bug under /verif/seeded (no check reads that folder).
usage: plant.py SPEC.py   where SPEC.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)]
demo is one of ('gen', {name: xsd}, want, forbid)   the tool's output for in.xsd holds / lacks the (whitespace-collapsed) texts
              ('wsdl', ...)                         the same with wsdl-parser
              ('rust', main.rs text)                a program against xsd-types/yaserde that panics when broken
              ('sh', text)                          body of the script; $TOOL and $WSDL are the executables, $d a scratch directory"""
import json,os,re,subprocess,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R='/repo'
def sh(*a,**k): return subprocess.run(a,check=True,text=True,capture_output=True,**k).stdout
HEAD='''#!/bin/bash
# run with cwd = the repository; exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
'''
TOOLS='''. /opt/vp/env.sh >/dev/null 2>&1
cd "$repo" && cargo build -q --locked --offline --target-dir "$repo/target" -p %s || exit 3
'''
def norm(s): return ' '.join(s.split())
def blame_ok(f,old):
    s=open(f'{R}/{f}').read(); i=s.index(old)
    a=s[:i].count('\n')+1; b=a+old.rstrip('\n').count('\n')
    out=sh('git','-C',R,'blame','-s','-L',f'{a},{b}','666f72f..HEAD','--',f)
    return [l for l in out.splitlines() if not l.startswith('^')]
ns={}; exec(open(sys.argv[1]).read(),ns)
only=set(sys.argv[2:])
for b in ns['BUGS']:
    if only and b['id'] not in only: continue
    assert not sh('git','-C',R,'status','--porcelain').strip(),'repo dirty'
    D=f"{V}/seeded/{b['id']}"; os.makedirs(D,exist_ok=True)
    for f,old,new in b['edits']:
        s=open(f'{R}/{f}').read(); assert s.count(old)==1,(b['id'],f,s.count(old),old)
        late=blame_ok(f,old)
        if late: print(b['id'],'NOTE lines not original:',late)
    for f,old,new in b['edits']:
        s=open(f'{R}/{f}').read(); open(f'{R}/{f}','w').write(s.replace(old,new))
    patch=sh('git','-C',R,'diff'); sh('git','-C',R,'checkout','--','.')
    open(D+'/patch.diff','w').write(patch)
    k=b['demo'][0]; t=HEAD
    if k in('gen','wsdl'):
        pk,flag=('xsd-parser-cli','xsd-parser') if k=='gen' else ('wsdl-parser-cli','wsdl-parser')
        t+=TOOLS%pk
        for n,x in b['demo'][1].items(): open(f'{D}/{n}','w').write(x)
        n=next(iter(b['demo'][1]))
        t+=f'"$repo/target/debug/{flag}" -i "$here/{n}" -o "$d/out.rs" >"$d/log" 2>&1 || {{ cat "$d/log"; echo "tool failed"; exit 1; }}\n'
        t+='tr -s "[:space:]" " " <"$d/out.rs" >"$d/flat"\n'
        for w in b['demo'][2]: t+=f"grep -qF -- {q(w)} \"$d/flat\" || {{ echo {q('missing: '+norm(w))}; cat \"$d/out.rs\"; exit 1; }}\n" if False else ''
        wl='\n'.join(norm(w) for w in b['demo'][2]); fl='\n'.join(norm(w) for w in b['demo'][3])
        t+="while IFS= read -r w; do [ -z \"$w\" ] || grep -qF -- \"$w\" \"$d/flat\" || { echo \"missing: $w\"; cat \"$d/out.rs\"; exit 1; }; done <<'WANT'\n"+wl+"\nWANT\n"
        t+="while IFS= read -r w; do [ -z \"$w\" ] || ! grep -qF -- \"$w\" \"$d/flat\" || { echo \"unwanted: $w\"; cat \"$d/out.rs\"; exit 1; }; done <<'WANT'\n"+fl+"\nWANT\nexit 0\n"
    elif k=='rust':
        open(D+'/main.rs','w').write(b['demo'][1])
        t+='''. /opt/vp/env.sh >/dev/null 2>&1
mkdir -p "$d/src" && cp "$here/main.rs" "$d/src/" && cp "$repo/Cargo.lock" "$d/"
cat >"$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
xsd-types = { path = "$repo/xsd-types" }
xsd-macro-utils = { path = "$repo/xsd-macro-utils" }
xsd-parser = { path = "$repo/xsd-parser" }
yaserde = "0.7"
yaserde_derive = "0.7"
xml-rs = "0.8"
chrono = "0.4"
num-bigint = "0.4"
bigdecimal = "0.4"
T
cd "$d" && cargo build -q --offline --target-dir "$d/target" || exit 3
"$d/target/debug/demo"
'''
    else:
        t+=TOOLS%'xsd-parser-cli -p wsdl-parser-cli'
        for n,x in (b['demo'][2] if len(b['demo'])>2 else {}).items(): open(f'{D}/{n}','w').write(x)
        t+='TOOL="$repo/target/debug/xsd-parser"; WSDL="$repo/target/debug/wsdl-parser"\n'+b['demo'][1]
    open(D+'/demo.sh','w').write(t); os.chmod(D+'/demo.sh',0o755)
    json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['breaks']),open(D+'/meta.json','w'),indent=1)
    # demo on the unchanged tree and with the patch
    r0=subprocess.run([D+'/demo.sh'],cwd=R,capture_output=True,text=True)
    sh('git','-C',R,'apply',D+'/patch.diff')
    r1=subprocess.run([D+'/demo.sh'],cwd=R,capture_output=True,text=True)
    rt=subprocess.run(['bash','/opt/vp/test.sh','/tmp/plant.json'],cwd=R,capture_output=True,text=True)
    base=json.load(open('/opt/vp/BASELINE.json')); out=json.load(open('/tmp/plant.json'))
    ck=subprocess.run(['bash',V+'/check.sh',b['prop']],capture_output=True,text=True)
    sh('git','-C',R,'checkout','--','.')
    v=[l for l in ck.stdout.splitlines() if 'VIOLATION' in l][:1]
    print(b['id'],b['prop'],'demo clean',r0.returncode,'patched',r1.returncode,'tests rc',rt.returncode,'check rc',ck.returncode,v)
    if r0.returncode or r1.returncode in(0,3): print(r0.stdout[-1500:],r0.stderr[-1500:],'---',r1.stdout[-800:],r1.stderr[-800:])
