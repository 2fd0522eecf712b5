#!/usr/bin/env python3
"""gate.py DIFFS OUT N SEED: turn N mutants of DIFFS into mutants that act only in a rare state: the body of the mutated
function is there twice, and the mutated copy runs only while a condition on the map holds"""
import sys,json,random,subprocess,re,os
D,OUT,N,SEED=sys.argv[1],sys.argv[2],int(sys.argv[3]),int(sys.argv[4])
R=random.Random(SEED)
lst={m['n']:m for m in json.load(open(D+'/list.json'))}
tests={json.loads(x)['n']:json.loads(x)['r'] for x in open(D+'/tests.jsonl')}
chk={}
for x in open(D+'/checks.jsonl'):
    r=json.loads(x); chk[r['n']]=[c for c in r['r'] if not c.startswith('?')]
pool=[n for n in tests if tests[n]=='killed' or chk.get(n)]
R.shuffle(pool)
CNT={'cycle_map.rs':'self.counter','partial_cycle_map.rs':'self.counter','group_map.rs':'self.right_counter.0'}
GATES=['self.left_set.len() > 40','self.left_set.len() > 400','self.right_set.len() == 17','(self.left_set.capacity() > 200 && self.left_set.len() < 8)','{cnt} > 300','self.right_set.len() > 100','self.left_set.len() % 7 == 6','self.right_set.capacity() - self.right_set.len() == 1']
def body(src,line):
    "(start,end) offsets of the braces of the function around the 0-based line, and its head"
    off=sum(len(l)+1 for l in src.split('\n')[:line])
    best=None
    for m in re.finditer(r'\n    (pub(\([a-z]+\))? )?(const )?fn (\w+)',src):
        if m.start()>off: break
        best=m
    if not best: return None
    i=src.index('{',best.end())
    # skip to the brace that ends with newline
    while src[i+1]!='\n':
        i=src.index('{',i+1)
    j=src.index('\n    }\n',i)
    if not (i<off<j): return None
    return i,j+6,src[best.start():i],best.group(4)
out=[];k=0
os.makedirs(OUT,exist_ok=True)
W='/tmp/gate/w'
if not os.path.isdir(W): subprocess.run(f'git clone -q /repo {W}',shell=True,check=True)
for n in pool:
    if len(out)>=N: break
    f=lst[n]['file']
    if f not in CNT: continue
    subprocess.run(f'git -C {W} checkout -q -f .',shell=True)
    src=open(f'{W}/src/{f}').read()
    if subprocess.run(f'git -C {W} apply {D}/{n:04d}.diff',shell=True,capture_output=True).returncode: continue
    mut=open(f'{W}/src/{f}').read()
    a,b=src.split('\n'),mut.split('\n')
    line=next((i for i,(x,y) in enumerate(zip(a,b)) if x!=y),None)
    if line is None: continue
    s,m=body(src,line),body(mut,line)
    if not s or not m or s[2]!=m[2] or 'self' not in s[2] or 'const fn' in s[2]: continue
    head=s[2]
    if not re.search(r'&(mut )?self',head) or s[3] in('next','size_hint','len','fmt','drop','extract','hash') and 'Iter' in src[:s[0]][-400:]: continue
    g=R.choice(GATES).format(cnt=CNT[f])
    new=src[:s[0]]+'{\n        if '+g+' '+mut[m[0]:m[1]]+' else '+src[s[0]:s[1]]+'\n    }'+src[s[1]:]
    open(f'{W}/src/{f}','w').write(new)
    d=subprocess.run(f'git -C {W} diff',shell=True,capture_output=True,text=True).stdout
    open(f'{OUT}/{k:04d}.diff','w').write(d)
    out.append(dict(n=k,file=f,fn=s[3],desc=f'[{g}] fn {s[3]}: {lst[n]["desc"]} (#{n})')); k+=1
json.dump(out,open(OUT+'/list.json','w'))
subprocess.run(f'git -C {W} checkout -q -f .',shell=True)
print(len(out))
