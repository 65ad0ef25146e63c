#!/usr/bin/env python3
"""DESIGN.md: tools/design.md, the planted bugs, the mutations and the rules of each property."""
import json,os,re,glob
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
out=open('tools/design.md').read().rstrip()+"\n\n"
out+="### Planted bugs\n\n| id | property | caught by | needs |\n|---|---|---|---|\n"
caught=json.load(open('tools/caught.json')) if os.path.exists('tools/caught.json') else {}
for d in sorted(glob.glob('seeded/*/meta.json')):
    m=json.load(open(d)); i=d.split('/')[1]
    out+="| %s | %s | %s | %s |\n"%(i,m['property'],caught.get(i,"not caught"),m['needs'].replace('|','/'))
out+="\n### Mutations\n\nEvery `bad` entry is reported by the property's check, every `ok` entry leaves it quiet.\n\n"
for f in sorted(glob.glob('tools/mut/*.mut')):
    bad={};ok={}
    for l in open(f):
        g=re.match(r'### (C\d+(?:,C\d+)*) \| (bad|ok) \| (.*)',l)
        if g: (bad if g[2]=='bad' else ok).setdefault(g[1],[]).append(g[3].strip())
    for p in sorted(set(bad)|set(ok)):
        out+="* %s (%s): %d bad: %s; %d ok: %s\n"%(p,os.path.basename(f),len(bad.get(p,[])),", ".join(bad.get(p,[])),len(ok.get(p,[])),", ".join(ok.get(p,[])))
out+="\n## 6. The rules of each property\n\nFrom the evidence of the last run: rule, number of obligations, meaning.\n"
for f in sorted(glob.glob('evidence/C??.json')):
    d=json.load(open(f))
    out+="\n**%s** (%.0f s)\n\n"%(d['property'],d['wall_s'])
    for r in d['coverage'].get('rules',[]):
        out+="* %s (%d): %s\n"%(r['rule'],r['obligations'],r['meaning'])
open('DESIGN.md','w').write(out)
