#!/usr/bin/env python3
"""DESIGN.md from tools/design/*.md, properties.jsonl, checks/*.cpp and tools/design/seeds.json (not run by any check)."""
import json,re,os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def rd(p): return open(os.path.join(H,p)).read()
notes=json.loads(rd('tools/design/notes.json')); tech=json.loads(rd('tools/technique.json'))
out=[rd('tools/design/head.md')]
for l in rd('properties.jsonl').splitlines():
    p=json.loads(l); i=p['id']; s=rd(f'checks/{i}.cpp')
    m=re.search(r'pbt::Config pbt::config = \{"\w+",\s*"((?:[^"\\]|\\.)*)",\s*(\d+)',s)
    out.append(f"### {i} {p['title']}\n\n{m.group(1)}\n\nQuick: {int(m.group(2)):,} random cases. Method: {tech[i]['technique']}.{' '+notes[i] if i in notes else ''}\n\n")
out.append(rd('tools/design/tail.md'))
sd=os.path.join(H,'seeded')
if os.path.isdir(sd):
    res=json.loads(rd('tools/design/seeds.json')); out.append("\n## 7. Planted bugs\n\nEach was written from the text of a property and the code, confirmed in a scratch copy (builds, stable tests pass, its\ndemonstration passes without and fails with it), and the check of its property was then run against it.\n\n| change | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n")
    for d in sorted(os.listdir(sd)):
        m=json.loads(rd(f'seeded/{d}/meta.json')); out.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {res.get(d,'not run')} |\n")
    if os.path.exists(os.path.join(H,'tools/design/seednotes.md')): out.append("\n"+rd('tools/design/seednotes.md'))
open(os.path.join(H,'DESIGN.md'),'w').write(''.join(out))
