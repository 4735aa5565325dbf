import json,re,subprocess
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
lv=json.load(open('/verif/levels.json'))
checks=[]
for i in ids:
    if i in lv['checks']:
        t,n=lv['checks'][i]
        checks.append(dict(property=i,quick_cmd=f'./check.sh {i} quick',thorough_cmd=f'./check.sh {i} thorough',technique=t,level='other',level_note=n))
na=[dict(property=i,reason=lv['na'].get(i,'check not built yet')) for i in ids if i not in lv['checks']]
json.dump(dict(version=1,setup_cmd='cd engine && GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off CGO_ENABLED=0 go build ./...',checks=checks,not_applicable=na,notes='Static analysis only: abstract interpretation of the compiler\'s SSA and of the assembly text it emits, tree rules over the runtime library. See DESIGN.md.'),open('/verif/MANIFEST.json','w'),indent=1)
