#!/usr/bin/env python3
"""Make and confirm a planted bug: seed.py SPEC.py [ID...]  (SPEC defines SEEDS, a list of dicts)

keys: id, prop, edits=[(file, old, new)], needs, breaks, prog (clara text), mode: run|reject|accept, expect (stdout for run), demo (optional full script)
"""
import sys,os,subprocess,json,shutil,tempfile,importlib.util
ENV=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off')
DEMO='''#!/bin/bash
# exit 0: compiled program behaves as the language defines; nonzero: it does not
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)" || exit 3
trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
go build -o "$t/clarac" . || exit 3
timeout 60 "$t/clarac" -install ./install -prog "$here/prog.clara" -out "$t" > "$t/log" 2>&1
rc=$?
%s
'''
RUN='''[ $rc = 0 ] || { head -20 "$t/log"; exit 1; }
timeout 20 "$t/prog" > "$t/out" 2>&1
echo "exit $?" >> "$t/out"
diff "$here/expected.txt" "$t/out" || exit 1
exit 0'''
REJ='''grep -q "^goroutine\\|^panic:" "$t/log" && { echo "compiler crashed"; head -5 "$t/log"; exit 1; }
[ $rc != 0 ] || { echo "accepted"; exit 1; }
grep -q "^ - " "$t/log" || { echo "no diagnostic"; head -5 "$t/log"; exit 1; }
exit 0'''
ACC='''[ $rc = 0 ] || { head -20 "$t/log"; exit 1; }
exit 0'''
def sh(c,cwd,t=600): 
    return subprocess.run(c,shell=True,cwd=cwd,env=ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t)
def main():
    sp=importlib.util.spec_from_file_location('s',sys.argv[1]); mod=importlib.util.module_from_spec(sp); sp.loader.exec_module(mod)
    want=sys.argv[2:]
    stable=json.load(open('/opt/vp/BASELINE.json'))['stable']
    for s in mod.SEEDS:
        if want and s['id'] not in want: continue
        d='/verif/seeded/'+s['id']
        w=tempfile.mkdtemp(prefix='seed',dir='/tmp')
        r=w+'/repo'
        try:
            shutil.copytree('/repo',r,symlinks=True)
            bad=None
            for f,o,n in s['edits']:
                p=r+'/'+f; t=open(p).read()
                if t.count(o)!=1: bad=f'{f}: {t.count(o)} matches of {o!r}'; break
                open(p,'w').write(t.replace(o,n))
            if bad: print(s['id'],'EDIT',bad); continue
            diff=sh('git diff',r).stdout
            x=sh('go build ./... && go vet . >/dev/null 2>&1; go build ./...',r)
            if x.returncode: print(s['id'],'BUILD',x.stdout[:500]); continue
            x=sh('TMPDIR=%s go test -json -vet=off -count=1 -parallel 1 -timeout 5m ./...'%w,r)
            passed=set()
            for l in x.stdout.splitlines():
                try: e=json.loads(l)
                except Exception: continue
                if e.get('Action')=='pass' and 'Test' in e: passed.add(e['Package']+'/'+e['Test'])
            miss=[t for t in stable if t not in passed]
            if miss: print(s['id'],'TESTS FAIL',miss[:5]); continue
            os.makedirs(d,exist_ok=True)
            open(d+'/patch.diff','w').write(diff)
            if 'prog' in s: open(d+'/prog.clara','w').write(s['prog'])
            mode=s.get('mode','run')
            if 'demo' in s: open(d+'/demo.sh','w').write(s['demo'])
            else: open(d+'/demo.sh','w').write(DEMO%{'run':RUN,'reject':REJ,'accept':ACC}[mode])
            for k,v in s.get('files',{}).items(): open(d+'/'+k,'w').write(v)
            os.chmod(d+'/demo.sh',0o755)
            json.dump(dict(property=s['prop'],needs=s['needs'],what_it_breaks=s['breaks']),open(d+'/meta.json','w'),indent=1)
            if 'expect' in s: open(d+'/expected.txt','w').write(s['expect'])
            a=sh(d+'/demo.sh','/repo',300); b=sh(d+'/demo.sh',r,300)
            ok=a.returncode==0 and b.returncode!=0
            print(s['id'],'OK' if ok else 'DEMO base=%d patched=%d'%(a.returncode,b.returncode))
            if a.returncode: print('  base:',a.stdout[:800])
            if ok: print('   patched:',b.stdout[:200].replace('\n',' | '))
            if not ok: shutil.rmtree(d)
        finally:
            shutil.rmtree(w)
main()
