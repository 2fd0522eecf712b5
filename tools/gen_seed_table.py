#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json,glob,os,re
rows={}
for p in sorted(glob.glob('seeded/*/meta.json')):
    m=json.load(open(p)); rows.setdefault(m['property'],[]).append((os.path.basename(os.path.dirname(p)),m['needs']))
t='<!-- seeds -->\n| check that catches it | planted bug | needs |\n|---|---|---|\n'
for k in sorted(rows):
    for i,n in rows[k]: t+=f'| {k} | {i} | {n.replace("|","/")} |\n'
t+='<!-- /seeds -->'
s=open('DESIGN.md').read()
s=re.sub(r'<!-- seeds -->.*<!-- /seeds -->',lambda _:t,s,flags=re.S)
open('DESIGN.md','w').write(s)
