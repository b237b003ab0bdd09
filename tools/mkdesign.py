#!/usr/bin/env python3
"""Writes the generated tables of DESIGN.md (between the BEGIN/END marks): properties, planted bugs, fixes."""
import json,glob,os,re,sys
sys.path.insert(0,os.path.dirname(__file__))
import claims
V='/verif/'
P=[json.loads(l) for l in open(V+'properties.jsonl')]
out={}
t=['| id | property | claim |','|----|----------|-------|']
for p in P:
    c=claims.CLAIMED.get(p['id'])
    t.append('| %s | %s | %s %s |'%(p['id'],p['title'],'**'+c.get('level','proof')+'.**' if c else '**not applicable.**',c['note'] if c else claims.NA[p['id']]))
out['properties']='\n'.join(t)
caught=json.load(open(V+'tools/caught.json')) if os.path.exists(V+'tools/caught.json') else {}
t=['| bug | property | what it breaks | what it needs | reported by |','|-----|----------|----------------|---------------|-------------|']
for d in sorted(glob.glob(V+'seeded/*/meta.json')):
    i=d.split('/')[-2]; m=json.load(open(d))
    t.append('| %s | %s | %s | %s | %s |'%(i,m['property'],m['what_it_breaks'],m['needs'],caught.get(i,'')))
out['bugs']='\n'.join(t)
t=['| commit | property | what failed |','|--------|----------|-------------|']
for l in open(V+'known-findings.txt'):
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',l)
    if m: t.append('| %s | %s | %s |'%(m[2],m[1],m[3]))
out['fixes']='\n'.join(t)
s=open(V+'DESIGN.md').read()
for k,v in out.items():
    s,n=re.subn(r'(<!-- BEGIN %s -->\n).*?(<!-- END %s -->)'%(k,k),lambda m:m[1]+v+'\n'+m[2],s,flags=re.S)
    assert n==1,k
open(V+'DESIGN.md','w').write(s)
