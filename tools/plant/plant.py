import os,subprocess,sys,json,shutil
sys.path.insert(0,'/tmp/plant')
from common import *
W='/tmp/plant/w'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,stdin=subprocess.DEVNULL,**k)
def setup():
    if not os.path.exists(W):
        sh(f'cp -a /repo {W}')
    sh(f'cd {W} && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -qfd')
env=dict(os.environ); 
def tests():
    r=sh(f'cd {W} && CARGO_TARGET_DIR={W}/target cargo test --workspace --all-features --no-fail-fast --offline 2>&1 | grep -E "^test .*FAILED|error(\\[|:)|panicked|warning: unused"')
    r2=sh(f'cd {W} && CARGO_TARGET_DIR={W}/target cargo test --workspace --all-features --no-fail-fast --offline >/dev/null 2>&1; echo $?')
    return r2.stdout.strip()=='0', r.stdout
def run(bugs,only=None):
    setup()
    for b in bugs:
        if only and b['id'] not in only: continue
        d='/tmp/plant/out/'+b['id']; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        sh(f'cd {W} && git checkout -q -f .')
        ok=True
        for f,old,new in b['edits']:
            p=f'{W}/src/{f}.rs'; s=open(p).read()
            n=1
            if isinstance(old,tuple): old,n,tot=old  # nth occurrence
            else: tot=1
            if s.count(old)!=tot: print(b['id'],'EDIT COUNT',s.count(old),repr(old[:80])); ok=False; break
            i=-1
            for _ in range(n): i=s.index(old,i+1)
            s=s[:i]+new+s[i+len(old):]
            open(p,'w').write(s)
        if not ok: continue
        if isinstance(b['demo'],dict):
            for f,t in b['demo'].items(): open(d+'/'+f,'w').write(t)
        else: open(d+'/main.rs','w').write(PRE+b['demo'])
        open(d+'/demo.sh','w').write(b.get('sh') or DEMO_SH); os.chmod(d+'/demo.sh',0o755)
        json.dump({"property":b['prop'],"needs":b['needs'],"what_it_breaks":b['breaks']},open(d+'/meta.json','w'),indent=1)
        open(d+'/patch.diff','w').write(sh(f'cd {W} && git diff').stdout)
        t,o=tests()
        if not t: print(b['id'],'TESTS FAIL:',o[:160]); continue
        bad=sh(f'cd {W} && bash {d}/demo.sh')
        sh(f'cd {W} && git checkout -q -f .')
        good=sh(f'cd {W} && bash {d}/demo.sh')
        st = good.returncode==0 and bad.returncode!=0
        print(b['id'],b['prop'],'OK' if st else 'DEMO WRONG','good',good.returncode,'bad',bad.returncode,(good.stderr[:300] if good.returncode else ''), bad.stderr[-160:].replace('\n',' '))
        if st:
            os.makedirs('/tmp/plant/kept',exist_ok=True); e='/tmp/plant/kept/'+b['id']; shutil.rmtree(e,ignore_errors=True); shutil.copytree(d,e)
