#!/usr/bin/env python3
"""Syntactic mutants of /repo/src: writes OUT/NNNN.diff and OUT/list.json.  Development aid only."""
import re,sys,os,json,difflib,random
REPO,OUT=sys.argv[1],sys.argv[2]
os.makedirs(OUT,exist_ok=True)
seen=set(); muts=[]
def code_lines(src):
    """indices of lines that are code (no comments, docs, cfg(test), use)"""
    ok=[];intest=False;incom=False
    for i,l in enumerate(src):
        s=l.strip()
        if s.startswith('#[cfg(test)]'): intest=True
        if s.startswith('/*'): incom=True
        if not(intest or incom or s.startswith('//') or s.startswith('use ') or s.startswith('#') or s==''): ok.append(i)
        if '*/' in s: incom=False
    return ok
SW=[('l_hash','r_hash'),('left_set','right_set'),('left_counter','right_counter'),('left_iter','right_iter'),('old','new'),
 ('remove_via_left','remove_via_right'),('SomeLeft','SomeRight'),('left_ref','right_ref'),('old_l_id','old_r_id'),('lp_hash','rp_hash'),
 ('len_left','len_right'),('left','right'),('is_left_paired','is_right_paired'),('contains_left','contains_right'),('insert_left','insert_right'),
 ('remove_left','remove_right'),('opt_from_left','opt_from_right'),('old_hash','new_hash'),('new_l_hash','old_l_hash'),('new_r_hash','old_r_hash'),
 ('r_id','id'),('is_some','is_none'),('true','false'),('&&','||'),('==','!='),('reserve','try_reserve'),('min','max'),('0','1'),('1','2'),('+','-'),
 ('insert','insert_remove'),('swap_left','swap_left_checked'),('remove_left','remove_via_left'),('remove_right','remove_via_right'),
 ('right_with_left_pair(&pair)','right_with_right_id(l.r_id)'),('clone','take')]
def tok(w): return (r'\b%s\b'%re.escape(w)) if re.match(r'^\w+$',w) else re.escape(w)
def add(f,src,new,desc):
    if new==src: return
    t='\n'.join(new)
    if (f,t) in seen: return
    seen.add((f,t))
    d=''.join(difflib.unified_diff([x+'\n' for x in src],[x+'\n' for x in new],'a/src/'+f,'b/src/'+f))
    muts.append((f,desc,d))
for f in ['cycle_map.rs','partial_cycle_map.rs','group_map.rs','optionals.rs','serde.rs']:
    src=open(f'{REPO}/src/{f}').read().split('\n')
    if src[-1]=='': src=src[:-1]
    L=code_lines(src)
    Ls=set(L)
    for i in L:
        l=src[i]; s=l.strip()
        if s.startswith(('pub struct','pub fn','impl','where','fn ','pub(crate)','type ','pub use','pub enum')) or re.match(r'^[A-Z]\w*: ',s): continue
        rep=lambda x: src[:i]+[x]+src[i+1:]
        for a,b in SW:
            for x,y in ((a,b),(b,a)):
                for m in re.finditer(tok(x),l):
                    add(f,src,rep(l[:m.start()]+y+l[m.end():]),f'{i+1}: {x} -> {y} in `{s}`')
        for m in re.finditer(r'hash_and_id\(([^,]+), ([^)]*)\)',l):
            add(f,src,rep(l[:m.start()]+f'just_id({m[2]})'+l[m.end():]),f'{i+1}: just_id in `{s}`')
            h=m[1]
            hh=f'Some({h})' if f.startswith('partial') else h
            add(f,src,rep(l[:m.start()]+f'(|p| p.hash == {hh})'+l[m.end():]),f'{i+1}: just hash in `{s}`')
        for m in re.finditer(r'just_id\(([^)]*)\)',l):
            add(f,src,rep(l[:m.start()]+'|_| true'+l[m.end():]),f'{i+1}: any in `{s}`')
        for m in re.finditer(r'(left_with_left_id|right_with_right_id)\((\*?[\w.]*)\)',l):
            add(f,src,rep(l[:m.start()]+'|_| true'+l[m.end():]),f'{i+1}: any in `{s}`')
        for m in re.finditer(r'equivalent_key(_left|_right)?\([^)]*\)',l):
            add(f,src,rep(l[:m.start()]+'|_| true'+l[m.end():]),f'{i+1}: any in `{s}`')
        for m in re.finditer(r'!(?=[a-z])',l):
            add(f,src,rep(l[:m.start()]+l[m.end():]),f'{i+1}: drop ! in `{s}`')
        m=re.match(r'^(\s*)(?:\} else )?if (?!let )(.*) \{$',l)
        if m:
            for c in ('true','false','!('+m[2]+')'):
                add(f,src,rep(l.replace('if '+m[2],'if '+c)),f'{i+1}: condition {c} in `{s}`')
            parts=re.split(r' && ',m[2])
            if len(parts)>1:
                for k in range(len(parts)):
                    add(f,src,rep(l.replace(m[2],' && '.join(parts[:k]+parts[k+1:]))),f'{i+1}: drop conjunct {k} of `{s}`')
        parts=re.split(r' && ',s)
        if len(parts)>1 and not s.endswith('{') and not s.startswith('if'):
            ind=l[:len(l)-len(l.lstrip())]
            for k in range(len(parts)):
                add(f,src,rep(ind+' && '.join(parts[:k]+parts[k+1:])),f'{i+1}: drop conjunct {k} of `{s}`')
        # statement deletion
        if s.endswith(';') and not s.startswith('let ') or s.endswith(';') and s.startswith('let '):
            # find start of the statement
            j=i
            ind=len(l)-len(l.lstrip())
            if s.startswith('.') or s in (');','};') or s.startswith(')'):
                while j>0 and not (src[j].strip() and len(src[j])-len(src[j].lstrip())==ind-(4 if s.startswith('.') else 0) and not src[j].strip().startswith(('.',')','}'))): j-=1
            if i-j<14:
                add(f,src,src[:j]+src[i+1:],f'{j+1}: delete `{" ".join(x.strip() for x in src[j:i+1])[:120]}`')
        if s.endswith('.is_some()') or s.endswith('.is_none()'):
            add(f,src,rep(re.sub(r'\w.*$','true',l,1)),f'{i+1}: true for `{s}`')
        # returned values
        m=re.match(r'^(\s*)(Some\(.*\)|SomeLeft\(.*\)|SomeRight\(.*\)|SomeBoth\(.*\)|digest|true|Neither)$',l)
        if m:
            for v in ('None','Neither','false','true'):
                add(f,src,rep(m[1]+v),f'{i+1}: {v} for `{s}`')
    # swap neighbouring statements
    for a,b in zip(L,L[1:]):
        if b==a+1 and src[a].strip().endswith(';') and src[b].strip().endswith(';') and src[a].strip()!=src[b].strip() and src[a][:len(src[a])-len(src[a].lstrip())]==src[b][:len(src[b])-len(src[b].lstrip())] and not src[a].strip().startswith(('.','}',')')) and not src[b].strip().startswith(('.','}',')')):
            add(f,src,src[:a]+[src[b],src[a]]+src[b+1:],f'{a+1}: swap `{src[a].strip()}` and `{src[b].strip()}`')
json.dump([dict(n=n,file=f,desc=d) for n,(f,d,_) in enumerate(muts)],open(OUT+'/list.json','w'),indent=0)
for n,(f,d,t) in enumerate(muts): open(f'{OUT}/{n:04d}.diff','w').write(t)
print(len(muts))
