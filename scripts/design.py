#!/usr/bin/env python3
"""Writes the per-property section of DESIGN.md (between the two markers) from
properties.jsonl, scripts/design.json and, for the sizes, the evidence of the
last run."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D=json.load(open(V+'/scripts/design.json'))
out=[]
for l in open(V+'/properties.jsonl'):
    p=json.loads(l); i=p['id']; d=D[i]
    out.append(f"### {i} — {p['title']}\n")
    for k,t in (('what','Decided'),('how','How'),('bounds','Bounds and assumptions'),('tests','Beyond tests')):
        if d.get(k): out.append(f"*{t}.* {d[k]}\n")
    f=V+'/evidence/%s.json'%i
    if os.path.exists(f):
        e=json.load(open(f)); c=e['coverage']
        n=[x.split(':')[0] for x in c['rules_applied']]
        n=[x for x in n if x not in('anchor','analysis-complete')]
        size=f"{c['obligations']} obligations, "+(f"{c['paths_analysed']} paths, " if c['paths_analysed'] else '')+f"{len(c['functions_analysed'])} functions"
        out.append(f"*Size on this tree.* {size}. Sub-rules: {', '.join(n)}.\n")
    if d.get('finding'): out.append(f"*Known finding.* {d['finding']}\n")
s=open(V+'/DESIGN.md').read()
a,b='<!-- properties -->\n','<!-- /properties -->'
i=s.index(a)+len(a); j=s.index(b)
open(V+'/DESIGN.md','w').write(s[:i]+'\n'+'\n'.join(out)+'\n'+s[j:])
import glob
s=open(V+'/DESIGN.md').read()
rows=['| bug | property | what it breaks | also caught by |','|---|---|---|---|']
C=json.load(open(V+'/scripts/caught.json')) if os.path.exists(V+'/scripts/caught.json') else {}
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(f)); n=f.split('/')[-2]
    o=[x for x in C.get(n,[]) if x!=m['property']]
    rows.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {', '.join(o)} |")
a,b='<!-- seeded -->\n','<!-- /seeded -->'
i=s.index(a)+len(a); j=s.index(b)
open(V+'/DESIGN.md','w').write(s[:i]+'\n'+'\n'.join(rows)+'\n\n'+s[j:])
