#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json,glob,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for f in sorted(glob.glob(root+'/seeded/*/meta.json')):
    d=json.load(open(f)); rows.append('| %s | %s | %s |'%(os.path.basename(os.path.dirname(f)),d['property'],d['what_it_breaks'].replace('|','/').replace('\n',' ')[:150]))
t='<!-- seeds -->\n| change | caught by | what it breaks |\n|---|---|---|\n'+'\n'.join(rows)+'\n<!-- /seeds -->'
p=root+'/DESIGN.md'; s=open(p).read()
s=s.replace('SEEDTABLE',t) if 'SEEDTABLE' in s else re.sub(r'<!-- seeds -->.*?<!-- /seeds -->',lambda m:t,s,flags=re.S)
open(p,'w').write(s)
