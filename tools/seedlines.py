#!/usr/bin/env python3
"""Development tool: do the lines a planted bug removes come from the original repository (first commit)?"""
import subprocess,sys,os,re
R='/repo'
base=subprocess.run(['git','-C',R,'rev-list','--max-parents=0','HEAD'],stdout=subprocess.PIPE,text=True).stdout.split()[0]
for d in sorted(os.listdir('/verif/seeded')):
    p=open('/verif/seeded/%s/patch.diff'%d,newline='').read().split('\n')
    f=None; rm=[]; add=0
    for l in p:
        l=l.rstrip('\r')
        if l.startswith('--- a/'): f=l[6:]
        elif l.startswith('-') and not l.startswith('---'): rm.append((f,l[1:]))
        elif l.startswith('+') and not l.startswith('+++'): add+=1
    bad=[]
    for f,l in rm:
        t=subprocess.run(['git','-C',R,'show',base+':'+f],stdout=subprocess.PIPE).stdout.decode('latin1').replace('\r','').split('\n')
        if l not in t: bad.append(l)
    print(d,'removed',len(rm),'added',add,'NOT ORIGINAL: %s'%bad if bad else '', 'PURE ADD' if not rm else '')
