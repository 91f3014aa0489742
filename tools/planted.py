#!/usr/bin/env python3
# writes docs/planted.md from seeded/*/meta.json and docs/caught.txt (lines "bug: checks that report it [remark]")
import json,os
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c={}
for l in open(R+'/docs/caught.txt'):
    if ':' in l: k,v=l.split(':',1); c[k.strip()]=v.strip()
o=['## Planted bugs','','Each is a change to the original sources in `seeded/<id>/` with a demonstration; all compile and pass the stable tests. They were written from the text of the property; what the checks said is in the last column.','','| bug | property | what it needs | what it breaks | reported by |','|---|---|---|---|---|']
for d in sorted(os.listdir(R+'/seeded')):
    m=json.load(open(f'{R}/seeded/{d}/meta.json'))
    o.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {c.get(d,'?')} |")
open(R+'/docs/planted.md','w').write('\n'.join(o)+'\n')
