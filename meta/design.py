#!/usr/bin/env python3
# design.py: rewrites the generated sections of DESIGN.md (contracts per property, planted bugs) from contracts/ and seeded/.
import re,glob,collections,json,os
os.chdir('/verif')
d=collections.defaultdict(list); fns=collections.defaultdict(set)
for f in sorted(glob.glob('contracts/**/*.go',recursive=True)):
    t=open(f).read()
    for m in re.finditer(r'((?://[^\n]*\n)+)func (Zv\w+)\(',t):
        c=m.group(1); p=re.search(r'gov:prop (C\d+)',c)
        if not p: continue
        b=re.search(r'gov:bounded (.*)',c)
        d[p.group(1)].append((f,m.group(2),b and b.group(1)))
        for x in re.findall(r'gov:func (.*)',c): fns[p.group(1)].add(os.path.dirname(f[10:])+' '+x.strip())
title={}
for l in open('properties.jsonl'):
    j=json.loads(l); title[j['id']]=j['title']
out=[]
for p in sorted(d):
    out.append('* **%s** %s. %d functions named under contract (more are executed inside). Contracts: '%(p,title.get(p,''),len(fns[p])))
    by=collections.defaultdict(list)
    for f,n,b in d[p]: by[f].append(n+(' [bounded: %s]'%b if b else ''))
    out[-1]+='; '.join('`%s`: %s'%(f,', '.join(ns)) for f,ns in by.items())+'.'
tab='\n'.join(out)
s=['| planted bug | property | needs |','|---|---|---|']
for m in sorted(glob.glob('seeded/*/meta.json')):
    j=json.load(open(m)); s.append('| %s | %s | %s |'%(m.split('/')[1],j['property'],j['needs'].replace('|','/')))
t=open('DESIGN.md').read()
def put(t,name,body): return re.sub(r'(<!-- %s -->\n).*?(<!-- end -->)'%name,lambda m:m.group(1)+body+'\n'+m.group(2),t,flags=re.S)
t=put(t,'contracts',tab); t=put(t,'seeds','\n'.join(s))
open('DESIGN.md','w').write(t)
