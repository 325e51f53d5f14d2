#!/usr/bin/env python3
"""Development tool: rewrites section 7 of DESIGN.md (planted bug -> check) from seeded/*/meta.json and out/seedmatrix.txt lines given on stdin."""
import json,os,sys,re
also={}
for l in (sys.stdin if not sys.stdin.isatty() else []):
    m=re.match(r'(\S+)\s+(C\d+) (caught|MISSED.*?) also: ?(.*)',l)
    if m: also[m[1]]=(m[3],m[4].strip())
out=['## 7. Which checks catch which planted bugs','',
'Every bug below passes the existing tests and is caught (exit 1, VIOLATION line) by the quick check of its own property.','',
'| bug | caught by | what it breaks |','|---|---|---|']
for i in sorted(os.listdir('seeded')):
    d=json.load(open('seeded/%s/meta.json'%i))
    w=' '.join(d['what_it_breaks'].split()).replace('|','/')
    out.append('| %s | %s%s | %s |'%(i,d['property'],' '+also[i][1] if also.get(i,('',''))[1] else '',w[:150]))
s=open('DESIGN.md').read()
s=re.sub(r'\n## 7\. .*\Z','',s,flags=re.S).rstrip()+'\n\n'+'\n'.join(out)+'\n'
open('DESIGN.md','w').write(s)
