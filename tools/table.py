#!/usr/bin/env python3
# table.py: puts the table of planted bugs into DESIGN.md (between the markers), from seeded/*/meta.json and tools/caught.txt
import glob,json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught={}
for l in open(V+'/tools/caught.txt'):
    f=l.split(None,2)
    if len(f)>=2: caught[f[0]]=(f[1],f[2].strip() if len(f)>2 else '')
rows=['| bug | property | what it breaks | caught by | remark |','|---|---|---|---|---|']
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(d)); m=json.load(open(d))
    c=caught.get(i,('not run',''))
    rows.append('| %s | %s | %s | %s | %s |'%(i,m['property'],m['what_it_breaks'].replace('|','/'),c[0],c[1]))
t='<!-- bugs -->\n'+'\n'.join(rows)+'\n<!-- /bugs -->'
s=open(V+'/DESIGN.md').read()
if '@@TABLE@@' in s: s=s.replace('@@TABLE@@',t)
else: s=re.sub(r'<!-- bugs -->.*<!-- /bugs -->',lambda _:t,s,flags=re.S)
open(V+'/DESIGN.md','w').write(s)
