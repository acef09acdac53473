#!/usr/bin/env python3
"""Refreshes the table of planted bugs in DESIGN.md."""
import json,os,re
r=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=['<!-- seeded -->','| bug | property | what it needs | caught by |','|---|---|---|---|']
for d in sorted(os.listdir(r+'/seeded')):
    m=json.load(open(f'{r}/seeded/{d}/meta.json'))
    n=str(m['needs']).replace('|','/').replace('\n',' ')
    rows.append(f"| {d} | {m['property']} | {n} | {m.get('caught_by','own quick check')} |")
rows.append('<!-- /seeded -->')
p=r+'/DESIGN.md'; s=open(p).read()
t='\n'.join(rows)
if '@SEEDED@' in s: s=s.replace('@SEEDED@',t)
else: s=re.sub(r'<!-- seeded -->.*<!-- /seeded -->',lambda _:t,s,flags=re.S)
open(p,'w').write(s)
