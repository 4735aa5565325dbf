#!/usr/bin/env python3
"""runseeds.py VCL [ID...]: run each planted bug's check on a scratch copy; record in tools/caught.txt"""
import sys,os,subprocess,shutil,json,tempfile
from concurrent.futures import ThreadPoolExecutor
vcl=sys.argv[1]; ids=sys.argv[2:] or sorted(os.listdir('/verif/seeded'))
def one(s):
    p=json.load(open('/verif/seeded/%s/meta.json'%s))['property']
    w=tempfile.mkdtemp(prefix='rs',dir='/tmp')
    try:
        subprocess.run(['git','clone','-q','/repo',w+'/repo'],check=True)
        if subprocess.run(['git','apply','/verif/seeded/%s/patch.diff'%s],cwd=w+'/repo').returncode: return s,p,'patch does not apply'
        os.mkdir(w+'/v')
        shutil.copy('/verif/known-findings.txt',w+'/v')
        r=subprocess.run(['timeout','1500',vcl,'-repo',w+'/repo','-verif',w+'/v',p],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        msg=[l.strip() for l in r.stdout.splitlines() if l.startswith('  [')]
        res='%s rc=%d %s'%(p,r.returncode,(msg[0][:150] if msg else ''))
        print(s,res,flush=True)
        return s,p,(msg[0][:150].replace('|','/') if r.returncode==1 and msg else 'NOT CAUGHT rc=%d'%r.returncode)
    finally: shutil.rmtree(w)
old={}
f='/verif/tools/caught.txt'
if os.path.exists(f):
    for l in open(f):
        a=l.rstrip('\n').split(None,1)
        if a: old[a[0]]=a[1]
with ThreadPoolExecutor(2) as ex:
    for s,p,m in ex.map(one,ids): old[s]=p+' '+m
with open(f,'w') as o:
    for k in sorted(old):
        if os.path.isdir('/verif/seeded/'+k): o.write(k+' '+old[k]+'\n')
