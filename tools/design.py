#!/usr/bin/env python3
# Rewrites the per-property sections and the table of planted bugs in DESIGN.md
# from properties.jsonl, the checks' own descriptions and seeded/*/meta.json.
import json,os,re,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[json.loads(l) for l in open(V+'/properties.jsonl')]
M=json.load(open(V+'/MANIFEST.json'))
na={x['property']:x['reason'] for x in M['not_applicable']}
D=open(V+'/DESIGN.md').read()
src={}
for f in glob.glob(V+'/sim/src/props/*.rs'):
    t=open(f).read()
    for m in re.finditer(r'id: "(\w\d\d)",(.*?)\n\};',t,re.S):
        b=m.group(2)
        g=lambda k: re.search(k+r': "((?:[^"\\]|\\.)*)"',b)
        ass=re.search(r'assumes: &\[(.*?)\],?\n',b+'\n',re.S)
        src[m.group(1)]=(os.path.basename(f),g('rule').group(1),re.findall(r'"((?:[^"\\]|\\.)*)"',ass.group(1)) if ass else [])
why={m.group(1):m.group(2) for m in re.finditer(r'### (\w\d\d) - .*?; beyond tests because (.*?)\n',D,re.S)}
out=[]
for p in P:
    i=p['id']
    if i in na:
        out.append(f"### {i} - not applicable\n\n{p['title']}: {na[i]}\n"); continue
    f,rule,ass=src[i]
    s=f"### {i} - {p['title']}\n\n{rule}\n"
    if ass: s+="\nAssumes: "+"; ".join(ass)+".\n"
    s+=f"\n`props/{f}`; beyond tests because {why.get(i,p['why_tests_cant'].rstrip('.')+'.')}\n"
    out.append(s)
a=D.index('### D01 - '); b=D.index('## What was found')
D=D[:a]+"\n".join(out)+"\n"+D[b:]
rows=[]
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(d)); n=os.path.basename(os.path.dirname(d))
    rows.append(f"| {n} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by',m['property'])} |")
t=re.search(r'(\n\|[^\n]*\|\n\|[-| ]+\|\n)((?:\|[^\n]*\|\n)+)',D[D.index('## Planted bugs'):])
o=D.index('## Planted bugs')
D=D[:o]+D[o:].replace(t.group(2),"\n".join(rows)+"\n",1)
open(V+'/DESIGN.md','w').write(D)
print(len(out),'sections',len(rows),'planted bugs')
