#!/usr/bin/env python3
"""plant.py BUGS.py [ID..]: writes /verif/seeded/<id> from a list of planted bugs, each confirmed in a scratch copy of
/repo: the patch builds, the stable tests pass, and the demonstration succeeds without it and fails with it."""
import sys,os,subprocess,json,shutil,runpy,re
bugs=runpy.run_path(sys.argv[1])['BUGS']; only=sys.argv[2:]
S='/tmp/plant/repo'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,errors='replace',**k)
if not os.path.exists(S): os.makedirs('/tmp/plant',exist_ok=True); subprocess.check_call(['cp','-a','/repo',S])
head=sh('git -C /repo rev-parse HEAD').stdout.strip()
sh(f'cd {S} && git fetch -q /repo HEAD && git checkout -q -f {head}')
orig=sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.split()[-1]
mine=set(sh("git -C /repo log --format=%H --grep='^fix:'").stdout.split())
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def build():
    r=sh(f'. /opt/vp/env.sh; cd {S} && cargo build --workspace --all-targets --offline 2>&1'); return r
def tests():
    # the same commands as test.sh, in the scratch copy
    t=open('/opt/vp/test.sh').read().replace('/repo',S).replace('. /opt/vp/env.sh',f'. /opt/vp/env.sh; cd {S}')
    open('/tmp/plant/test.sh','w').write(t)
    sh('bash /tmp/plant/test.sh /tmp/plant/out.json')
    d=json.load(open('/tmp/plant/out.json')); return stable-set(d['passed'])
DEMO='''#!/bin/bash
# exit 0 when every document below gets the verdict it has to get (0 valid, 1 schema error, 2 invalid document,
# bad anything but 0)
d=$(cd "$(dirname "$0")" && pwd); bad=0
rng=${CARGO_TARGET_DIR:-target}/debug/rng
check() { "$rng" validate "$d/$1" ${2:+"$d/$2"} >/dev/null 2>&1; r=$?; [ $3 = bad ] && [ $r != 0 ] && r=bad; if [ $r != "$3" ]; then echo "$1 $2: exit $r, wanted $3"; bad=1; fi; }
%s
exit $bad
'''
RUSTDEMO='''#!/bin/bash
# exit 0 when every document below gets the verdict it has to get; schemas are read in the XML syntax by a small
# program built against the working tree
d=$(cd "$(dirname "$0")" && pwd); bad=0; w=$(mktemp -d); trap 'cd /; rm -rf "$w"' EXIT
repo=$(pwd)
mkdir -p "$w/src"; cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
relaxng-model = { path = "$repo/relaxng-model" }
relaxng-syntax = { path = "$repo/relaxng-syntax" }
relaxng-validator = { path = "$repo/relaxng-validator" }
xmlparser = "0.13"
T
cat > "$w/src/main.rs" <<'T'
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut c = relaxng_model::Compiler::new(relaxng_model::FsFiles, relaxng_model::Syntax::Xml);
    let m = match c.compile(std::path::Path::new(&a[1])) { Ok(m) => m, Err(_) => std::process::exit(1) };
    if a.len() > 2 {
        let t = std::fs::read_to_string(&a[2]).unwrap();
        let mut v = relaxng_validator::Validator::new(m, xmlparser::Tokenizer::from(&t[..]));
        while let Some(r) = v.validate_next() { if r.is_err() { std::process::exit(2) } }
    }
}
T
(cd "$w" && CARGO_TARGET_DIR="$w/target" cargo build --offline -q) || exit 9
check() { "$w/target/debug/demo" "$d/$1" ${2:+"$d/$2"} >/dev/null 2>&1; r=$?; [ $3 = bad ] && [ $r != 0 ] && r=bad; if [ $r != "$3" ]; then echo "$1 $2: exit $r, wanted $3"; bad=1; fi; }
%s
exit $bad
'''
for b in bugs:
    if only and b['id'] not in only: continue
    d='/verif/seeded/'+b['id']
    sh(f'git -C {S} checkout -q -f {head}')
    bad=[]
    for f,old,new in b['edits']:
        p=f'{S}/{f}'; s=open(p).read()
        if s.count(old)!=1: bad.append(f'{f}: {s.count(old)} occurrences of {old[:60]!r}'); continue
        open(p,'w').write(s.replace(old,new))
    if bad: print(b['id'],'EDIT',bad); continue
    diff=sh(f'git -C {S} diff').stdout
    # are the removed lines, or the neighbours of the added ones, of the original repository?
    own=0
    for f in {e[0] for e in b['edits']}:
        bl=sh(f'git -C {S} blame -l HEAD -- {f}').stdout.split('\n')
        cur=None
        for l in sh(f'git -C {S} diff -U0 -- {f}').stdout.split('\n'):
            m=re.match(r'@@ -(\d+)(?:,(\d+))?',l)
            if m:
                n=int(m[2] or 1)
                for k in range(int(m[1]),int(m[1])+max(n,1)):
                    h=bl[k-1].split()[0].lstrip('^')
                    if n and any(x.startswith(h) for x in mine): own+=1
    if own: print(b['id'],f'warning: {own} of the changed lines were added by fix commits')
    r=build()
    if r.returncode: print(b['id'],'BUILD',r.stdout[-1500:]); continue
    miss=tests()
    if miss: print(b['id'],'TESTS',sorted(miss)[:5]); continue
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    for n,t in b['files'].items():
        os.makedirs(os.path.dirname(f'{d}/{n}'),exist_ok=True); open(f'{d}/{n}','w').write(t)
    lines='\n'.join(f'check {s} "{x or ""}" {w}' for s,x,w in b['cases'])
    open(f'{d}/demo.sh','w').write((RUSTDEMO if any(n.endswith('.rng') for n in b['files']) else DEMO)%lines); os.chmod(f'{d}/demo.sh',0o755)
    open(f'{d}/patch.diff','w').write(diff)
    json.dump(dict(property=b['property'],needs=b['needs'],what_it_breaks=b['breaks']),open(f'{d}/meta.json','w'),indent=1)
    r1=sh(f'bash {d}/demo.sh',cwd=S)
    r0=sh(f'bash {d}/demo.sh',cwd='/repo')
    ok=r0.returncode==0 and r1.returncode!=0
    print(b['id'],'ok' if ok else 'DEMO', r0.stdout.strip(),'| patched:',r1.stdout.strip())
    if not ok: shutil.rmtree(d)
