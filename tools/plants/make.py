#!/usr/bin/env python3
"""make.py [ids...]: write /verif/seeded/<id>/ from bugs.py; with --check also verify each in a scratch copy of /repo."""
import sys,os,subprocess,json,shutil,tempfile
here=os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0,here)
from bugs import B
args=[a for a in sys.argv[1:] if not a.startswith('--')]
check='--check' in sys.argv
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
prelude=open(here+'/prelude.rs').read(); tmpl=open(here+'/demo.sh').read()
assert len({b['id'] for b in B})==len(B)
work=None
if check:
    work='/tmp/plantwork%d'%os.getpid(); shutil.rmtree(work,ignore_errors=True)
    sh(f'cp -a /repo {work}')
bad=[]
for b in B:
    if args and b['id'] not in args: continue
    assert sh('git -C /repo status --porcelain').stdout=='' 
    files={}
    for f,o,n in b['edits']:
        s=files.get(f) or open('/repo/'+f).read()
        assert s.count(o)==1,(b['id'],f,s.count(o))
        files[f]=s.replace(o,n)
    t=tempfile.mkdtemp()
    sh(f'git -C /repo worktree prune; mkdir -p {t}/a {t}/b')
    diff=''
    for f,s in sorted(files.items()):
        os.makedirs(f'{t}/{os.path.dirname(f)}',exist_ok=True)
        open(f'{t}/new','w').write(s)
        r=sh(f'diff -u --label a/{f} --label b/{f} /repo/{f} {t}/new').stdout
        diff+=f'diff --git a/{f} b/{f}\n'+r
    shutil.rmtree(t)
    out=f'/verif/seeded/{b["id"]}'
    os.makedirs(out,exist_ok=True)
    open(out+'/patch.diff','w').write(diff)
    open(out+'/demo.rs','w').write(prelude+'\n'+b['demo']+'\n')
    run='timeout 250 "$CARGO_TARGET_DIR/debug/demo"'
    if b['cli']:
        run='''(cd "$repo" && CARGO_PROFILE_DEV_OPT_LEVEL=2 cargo build --offline --locked -q --bin panacea --manifest-path "$repo/Cargo.toml") 2>"$d/log" || { tail -n 30 "$d/log"; exit 4; }
PANACEA="$CARGO_TARGET_DIR/debug/panacea" timeout 200 "$CARGO_TARGET_DIR/debug/demo"'''
    open(out+'/demo.sh','w').write(tmpl.replace(' @CFG@',' '+b['cfg'] if b['cfg'] else '').replace('@RUN@',run))
    os.chmod(out+'/demo.sh',0o755)
    json.dump({"property":b['prop'],"needs":b['needs'],"what_it_breaks":b['breaks']},open(out+'/meta.json','w'),indent=1)
    if not check: continue
    sh(f'git -C {work} checkout -- . ')
    os.environ['DEMO_TARGET_DIR']=work+'/demo_target'; r=sh(f'bash {out}/demo.sh',cwd=work); r0=r.returncode
    a=sh(f'git -C {work} apply {out}/patch.diff')
    r=sh(f'bash {out}/demo.sh',cwd=work); r1=r.returncode; msg=(r.stdout+r.stderr)[-300:].replace('\n',' | ')
    env=dict(os.environ,CARGO_TARGET_DIR=work+'/target',RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',CARGO_NET_OFFLINE='true',CARGO_PROFILE_TEST_LTO='off',CARGO_PROFILE_TEST_CODEGEN_UNITS='16',CARGO_INCREMENTAL='1',CARGO_PROFILE_DEV_DEBUG='line-tables-only')
    sh(f'cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8 >{work}/t.log 2>&1',cwd=work,env=env)
    sh(f'python3 /opt/vp/results.py {work}/t.json cargo:{work}/t.log')
    base=json.load(open('/opt/vp/BASELINE.json')); res=json.load(open(work+'/t.json'))
    bp=set(base['stable'])
    lost=sorted(bp-set(res['passed']))
    ok=a.returncode==0 and r0==0 and r1 not in(0,3,4) and not lost
    print(b['id'],b['prop'],'OK' if ok else '*** BAD',f'apply {a.returncode} demo {r0}/{r1} lost {lost[:5]}',msg[-220:],flush=True)
    if not ok: bad.append(b['id'])
if work: shutil.rmtree(work,ignore_errors=True)
print('bad:',bad)
