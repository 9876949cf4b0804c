#!/usr/bin/env python3
# Writes DESIGN.md from design_in.md, claims.json, na.json, known_findings.txt and seeded/*/meta.json.
import json,os,re,glob
V='/verif/'
C=json.load(open(V+'tools/claims.json')); N=json.load(open(V+'tools/na.json'))
P={json.loads(l)["id"]:json.loads(l) for l in open(V+'properties.jsonl')}
D=json.load(open(V+'tools/decided.json'))
units={}
for f in sorted(glob.glob(V+'contracts/*.gv')):
    for l in open(f):
        m=re.match(r'(?:contract|lemma) (\S+) \[([^\]]*)\]',l)
        tags=m.group(2).split() if m else []
        m2=None if m else re.search(r'\[(C\d\d(?: C\d\d)*)\]',l)
        if m2: tags=m2.group(1).split()
        for c in tags: units.setdefault(c,{}).setdefault(os.path.basename(f),0); 
        if m:
            for c in tags: units[c][os.path.basename(f)]+=1
prop="| | property | what is specified and decided (contracts) | strength and assumptions |\n|---|---|---|---|\n"
for i in sorted(C):
    fs=", ".join(f"{f} ({n})" if n else f for f,n in sorted(units.get(i,{}).items()))
    prop+=f"| {i} | {P[i]['title']} | {D[i]} *{fs}* | {C[i]} |\n"
na="".join(f"* **{i}** {P[i]['title']}: {N[i]}.\n" for i in sorted(N))
fix="";find=""
for l in open(V+'known_findings.txt'):
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',l)
    if m: fix+=f"* {m.group(1)} `{m.group(2)}` {m.group(3)}\n"
    m=re.match(r'finding: property=(\S+) obligation=(\S+) :: (.*)',l)
    if m: find+=f"* {m.group(1)} `{m.group(2)}`: {m.group(3)}\n"
seed="| seed | caught by | breaks | needs |\n|---|---|---|---|\n"
for d in sorted(glob.glob(V+'seeded/*/meta.json')):
    m=json.load(open(d)); seed+=f"| {d.split('/')[-2]} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |\n"
t=open(V+'tools/design_in.md').read()
for k,v in dict(PROPTABLE=prop,NATABLE=na,FIXTABLE=fix,FINDTABLE=find,SEEDTABLE=seed).items(): t=t.replace(k+"\n",v.rstrip("\n")+"\n")
open(V+'DESIGN.md','w').write(t)
print(len(t.splitlines()),"lines")
