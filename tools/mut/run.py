#!/usr/bin/env python3
"""run.py DIFFS tests WORKERS     which mutants compile and pass the repository's tests -> DIFFS/alive.json
   run.py DIFFS checks WORKERS    run the checks on those -> DIFFS/result.jsonl   (works in /tmp/mut)"""
import os,sys,json,subprocess,threading,queue
D,mode,W=sys.argv[1],sys.argv[2],int(sys.argv[3])
ROOT='/tmp/mut'
def sh(c,t=600,env=None):
    e=dict(os.environ); e.update(env or {})
    try: return subprocess.run(c,shell=True,capture_output=True,text=True,stdin=subprocess.DEVNULL,timeout=t,env=e)
    except subprocess.TimeoutExpired: 
        class R: returncode=99; stdout='';stderr='timeout'
        return R
lst=json.load(open(D+'/list.json'))
q=queue.Queue(); lock=threading.Lock(); out={}
ALL=[f'C{i:02d}' for i in range(1,27)]+['C28','C29','C30']
ORD={'cycle_map.rs':'C01 C02 C09 C08 C10 C11 C12 C13 C14 C15 C16 C18 C24 C25 C20 C21 C23 C29 C28 C22 C26 C17',
 'partial_cycle_map.rs':'C03 C04 C05 C09 C08 C10 C11 C12 C13 C14 C15 C16 C18 C24 C25 C20 C21 C23 C29 C28 C22 C26',
 'group_map.rs':'C06 C07 C09 C08 C12 C13 C14 C15 C16 C18 C24 C25 C20 C21 C23 C29 C28 C22 C26',
 'optionals.rs':'C19 C04 C02 C05 C18','serde.rs':'C17 C18'}
def tests(w,m):
    r=f'{ROOT}/t{w}'
    if not os.path.isdir(r): sh(f'git clone -q /repo {r} && cp /repo/Cargo.lock {r}/')
    sh(f'cd {r} && git checkout -q -f . && git apply {D}/{m["n"]:04d}.diff')
    env={'CARGO_TARGET_DIR':r+'/target','RUSTFLAGS':'-Awarnings -Cdebuginfo=0'}
    x=sh(f'cd {r} && cargo test --offline --all-features --lib --tests --no-run',env=env)
    if x.returncode: return 'nobuild'
    x=sh(f'cd {r} && timeout -k 2 60 cargo test --offline --all-features --lib --tests',env=env)
    if x.returncode: return 'killed'
    x=sh(f'cd {r} && timeout -k 2 100 cargo test --offline --all-features --doc',env=env)
    return 'killed' if x.returncode else 'alive'
def checks(w,m):
    d=f'{ROOT}/c{w}'
    sel=os.environ.get('IDS') or ORD[m['file']]
    full=os.environ.get('FULL')
    got=[]
    env={'CMH_SHARDS':'1','CMH_SCALE':os.environ.get('SCALE','0.04'),'NOREG':'1'}
    if not os.environ.get('O2'): env.update({'CARGO_PROFILE_RELEASE_OPT_LEVEL':'0','CARGO_PROFILE_RELEASE_INCREMENTAL':'false'})  # quick to build
    if not full: env['STOP']='1'
    x=sh(f'/verif/tools/lab.sh {d} {D}/{m["n"]:04d}.diff {sel}',t=3000,env=env)
    for o in x.stdout.strip().split('\n'):
        if ' rc=1 ' in o: got.append(o.split()[0])
        elif ' rc=0 ' not in o: got.append('?'+o[-200:])
    return got
def worker(w):
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        try: r=(tests if mode=='tests' else checks)(w,m)
        except Exception as e: r='ERR '+repr(e)
        with lock:
            out[m['n']]=r
            with open(f'{D}/{mode}.jsonl','a') as f: f.write(json.dumps(dict(n=m['n'],file=m['file'],desc=m['desc'],r=r))+'\n')
done=set()
if os.path.exists(f'{D}/{mode}.jsonl'):
    for l in open(f'{D}/{mode}.jsonl'): done.add(json.loads(l)['n'])
if mode=='checks':
    alive={json.loads(l)['n'] for l in open(f'{D}/tests.jsonl') if json.loads(l)['r']=='alive'}
    only=os.environ.get('ONLY')
    if only: alive&={int(x) for x in only.split(',')}
else: alive={m['n'] for m in lst}
for m in lst:
    if m['n'] in alive and m['n'] not in done: q.put(m)
print(q.qsize(),'to do')
ts=[threading.Thread(target=worker,args=(w,)) for w in range(W)]
[t.start() for t in ts];[t.join() for t in ts]
