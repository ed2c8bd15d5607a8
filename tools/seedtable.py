#!/usr/bin/env python3
"""seedtable.py: rewrite the table of planted bugs in DESIGN.md from seeded/."""
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED='c30-nearly-sorted c30-reader-history c01-push-cap c01-refindex-20bit c04-unmarshal-root c06-narrow c06-last-column c11-skip-multiple c09-untyped-parts c24-geometry-type c13-magic-cut c23-enum-name c01-deep-tree c06-radix c17-long c11-many c11-empty-search c25-data-offset c15-count16 c28-swap c20-results-reuse c17-true-is-one c09-many-points c09-many-parts'.split()
rows=['<!-- seeds -->','| property | caught by its check (needs, see meta.json) |','|---|---|']
by={}
for b in sorted(os.listdir(V+'/seeded')):
    p=json.load(open(f'{V}/seeded/{b}/meta.json'))['property']
    by.setdefault(p,[]).append(f'**{b}**' if b in MISSED else b)
for p in sorted(by): rows.append(f'| {p} | '+', '.join(by[p])+' |')
rows.append('<!-- /seeds -->')
f=V+'/DESIGN.md'; s=open(f).read(); t='\n'.join(rows)
if 'SEEDTABLE' in s: s=s.replace('SEEDTABLE',t)
else: s=re.sub(r'<!-- seeds -->.*?<!-- /seeds -->',lambda m:t,s,flags=re.S)
open(f,'w').write(s)
print(sum(map(len,by.values())),'planted bugs')
