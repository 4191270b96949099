#!/usr/bin/env python3
"""development helper: fills the generated parts of DESIGN.md from checks.json, properties.jsonl, seeded/*/meta.json and tools/caught.json"""
import json,os,re,subprocess
D=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ch=json.load(open(D+'/checks.json')); props=[json.loads(l) for l in open(D+'/properties.jsonl')]
orc=json.load(open(D+'/tools/oracles.json'))
out=[]
for p in props:
    c=ch.get(p['id'])
    if not c: continue
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(f"Code: {', '.join(p['anchors']['files'])}. Harness: harness/{c['pkg']}. {orc.get(p['id'],'')}\n")
    for r in c['runs']:
        f=lambda d: ' '.join(f'{k}={v}' for k,v in (d or {}).items())
        q=f(r.get('quick')); t=f(r.get('thorough'))
        b=f" [quick: {q}{'; thorough: '+t if t and t!=q else ''}]" if q or t else ''
        out.append(f"* `{r['fn']}`: {r['bounds']}{b}")
    if c['outside']: out.append(f"* outside: {c['outside']}")
    for a in c['assumptions']: out.append(f"* assumes: {a}")
    out.append('')
s=open(D+'/DESIGN.md').read()
s=re.sub(r'(<!-- generated by tools/design.py: begin -->\n).*?(<!-- end -->)',lambda m:m[1]+'\n'.join(out)+m[2],s,flags=re.S)
cj=D+'/tools/caught.json'; caught=json.load(open(cj)) if os.path.exists(cj) else {}
rows=['| bug | property | needs | quick check |','|---|---|---|---|']
sd=D+'/seeded'
for i in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m=json.load(open(f'{sd}/{i}/meta.json'))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks'].replace('|','/')} Needs: {m['needs'].replace('|','/')} | {caught.get(i,'?')} |")
s=re.sub(r'(<!-- generated by tools/design.py: bugs begin -->\n).*?(<!-- bugs end -->)',lambda m:m[1]+'\n'.join(rows)+'\n'+m[2],s,flags=re.S)
n=sum(l.startswith('fixed:') for l in open(D+'/known_findings.txt'))
s=re.sub(r'FIXCOUNT|\d+ entries in known_findings.txt',f'{n} entries in known_findings.txt',s)
open(D+'/DESIGN.md','w').write(s)
