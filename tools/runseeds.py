#!/usr/bin/env python3
"""Development tool: runs checks against every planted bug, each in a scratch copy of /repo and of /verif.
   runseeds.py [--all] [--jobs N] [id ...]    default: only the check of the bug's own property; --all: every check."""
import os, subprocess, sys, shutil, json, tempfile, re
from concurrent.futures import ThreadPoolExecutor
a=sys.argv[1:]; allc='--all' in a; a=[x for x in a if x!='--all']
jobs=2
if '--jobs' in a: i=a.index('--jobs'); jobs=int(a[i+1]); del a[i:i+2]
ids=a or sorted(os.listdir('/verif/seeded'))
ALL=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
def one(i):
    w=tempfile.mkdtemp(prefix='rs_')
    try:
        shutil.copytree('/repo',w+'/repo',ignore=shutil.ignore_patterns('_build'))
        shutil.copytree('/verif',w+'/verif',ignore=shutil.ignore_patterns('.git','out','evidence','seeded','__pycache__'))
        r=subprocess.run(['git','-C',w+'/repo','apply','/verif/seeded/%s/patch.diff'%i],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        if r.returncode: return i,None,'patch: '+r.stdout
        p=json.load(open('/verif/seeded/%s/meta.json'%i))['property']
        res={}
        first=''
        for c in (ALL if allc else [p]):
            q=subprocess.run([sys.executable,'check.py',c,'quick'],cwd=w+'/verif',env=dict(os.environ,VERIF_REPO=w+'/repo'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace')
            res[c]=q.returncode
            if c==p and q.returncode!=1: first=q.stdout[-300:]
            if q.returncode not in (0,1): first+=' %s rc %d: %s'%(c,q.returncode,q.stdout[-300:])
        return i,p,res,first
    finally: shutil.rmtree(w)
with ThreadPoolExecutor(jobs) as ex:
    for t in ex.map(one,ids):
        if t[1] is None: print(t); continue
        i,p,res,first=t
        print('%-22s %s %s also: %s %s'%(i,p,'caught' if res[p]==1 else 'MISSED %d'%res[p],' '.join(c for c in res if c!=p and res[c]==1),first),flush=True)
