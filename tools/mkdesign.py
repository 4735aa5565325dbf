#!/usr/bin/env python3
"""DESIGN.md from tools/design_head.md, properties.jsonl, levels.json, evidence/, seeded/, tools/caught.txt, tools/design_tail.md"""
import json,os,re
lv=json.load(open('levels.json'))
out=[open('tools/design_head.md').read()]
why=json.load(open('tools/design_why.json'))
caught={}
if os.path.exists('tools/caught.txt'):
    for l in open('tools/caught.txt'):
        a=l.split(None,2)
        if len(a)>1: caught[a[0]]=(a[1],a[2].strip() if len(a)>2 else '')
for l in open('properties.jsonl'):
    p=json.loads(l); id=p['id']
    if id not in lv['checks']: continue
    e=json.load(open('evidence/%s.json'%id)); c=e['coverage']
    out.append('### %s %s\n\n* **Decided by**: %s.\n* **Rule and oracle**: %s\n* **Bounds**: %s\n* **Obligations**: about %s, over %d functions of the sources.\n* **Beyond tests**: %s\n'%(
        id,p['title'],lv['checks'][id][0],c['explanation'],lv['checks'][id][1],format(int(float('%.2g'%c['discharged'])),','),len(c['functions_analysed']),why.get(id,p['why_tests_cant']+'.')))
out.append('## 3. Assumptions shared by the checks\n')
ass=[]
for id in lv['checks']:
    for a in json.load(open('evidence/%s.json'%id))['assumptions']:
        if a not in ass: ass.append(a)
out+=['* '+a[0].upper()+a[1:]+'.' for a in ass]
out.append('')
out.append(open('tools/design_tail.md').read())
out.append('| planted bug | property | needs | caught by |\n|---|---|---|---|')
for s in sorted(os.listdir('seeded')):
    m=json.load(open('seeded/%s/meta.json'%s))
    r=caught.get(s)
    out.append('| %s | %s | %s | %s |'%(s,m['property'],m['needs'],('%s: %s'%r if r else 'not run')))
open('DESIGN.md','w').write('\n'.join(out)+'\n')
