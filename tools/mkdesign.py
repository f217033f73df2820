#!/usr/bin/env python3
# DESIGN.md = tools/design_body.md + the table of planted bugs (results: tools/seeded_results.txt)
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res={}
for l in open(V+'/tools/seeded_results.txt'):
    m=re.match(r'(\S+) (caught|MISSED|BROKEN)',l)
    if m: res[m[1]]=m[2]
out=open(V+'/tools/design_body.md').read()
out+="## Planted bugs\n\nWritten from the properties and the code alone, each confirmed to pass the existing tests and to fail its\ndemonstration; the check is the one of the property in front. `caught` is the quick tier with seed 1.\n\n| planted bug | needs | check |\n|---|---|---|\n"
for d in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(f'{V}/seeded/{d}/meta.json'))
    out+=f"| {d} | {m['needs'].replace('|','/')} | {res.get(d,'not run')} |\n"
open(V+'/DESIGN.md','w').write(out)
from collections import Counter
print(Counter(res.get(d,'not run') for d in os.listdir(V+'/seeded')))
