#!/usr/bin/env python3
"""Development tool: builds /verif/seeded/<id> from a definition and confirms it (builds, tests pass, demo distinguishes).
   mkseed.py DEFS.py [id ...]    DEFS.py defines SEEDS = [dict(id, property, needs, what, edits=[(file, old, new)], demo=C text, opts)]"""
import os, subprocess, sys, shutil, json, tempfile
REPO='/repo'; OUT='/verif/seeded'
def sh(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
DEMO='''#!/bin/bash
# Run in /repo after the build. 0: the property holds for the case shown, not 0: it is broken.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
gcc -std=gnu11 -w -O1 -g {san} -DSTRBUF_PROVIDE_PRINTF -DSTRBUF_DEFAULT_ALLOCATOR_STDLIB {defs} -I. -Iaccessories -Iaccessories/strbuf_crypt -Iaccessories/strbuf_crypt/aes \\
	"$here/demo.c" strview.c strbuf.c strnum.c {src} -o "$t/demo" {ld} -lm || exit {ccfail}
cd "$t" && ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo
'''
def main():
    ns={'__file__':os.path.abspath(sys.argv[1])}; exec(open(sys.argv[1]).read(), ns)
    want=sys.argv[2:]
    for s in ns['SEEDS']:
        if want and s['id'] not in want: continue
        d=os.path.join(OUT,s['id']); 
        w=tempfile.mkdtemp(prefix='seed_'); r=w+'/repo'
        shutil.copytree(REPO,r,ignore=shutil.ignore_patterns('_build'))
        try:
            bad=None
            for f,a,b in s['edits']:
                t=open(r+'/'+f,newline='').read()
                crlf='\r\n' in t
                if crlf: a=a.replace('\n','\r\n'); b=b.replace('\n','\r\n')
                if t.count(a)!=1: bad='%s: %d occurrences of %r'%(f,t.count(a),a[:60]); break
                open(r+'/'+f,'w',newline='').write(t.replace(a,b))
            if bad: print(s['id'],'EDIT',bad); continue
            p=subprocess.run(['git','-C',r,'diff','--no-color'],stdout=subprocess.PIPE).stdout
            os.makedirs(d,exist_ok=True)
            open(d+'/patch.diff','wb').write(p)
            open(d+'/demo.c','w').write(s['demo'])
            open(d+'/demo.sh','w').write(DEMO.format(san=s.get('san','-fsanitize=address,undefined -fno-sanitize-recover=undefined'),defs=s.get('defs',''),src=s.get('src',''),ld=s.get('ld',''),ccfail=s.get('ccfail',2)))
            os.chmod(d+'/demo.sh',0o755)
            json.dump(dict(property=s['property'],needs=s['needs'],what_it_breaks=s['what']),open(d+'/meta.json','w'),indent=1)
            ok=sh(['bash',d+'/demo.sh'],cwd=REPO)
            br=sh(['bash',d+'/demo.sh'],cwd=r)
            o=w+'/o'; os.makedirs(o)
            FL='-DPLATFORM_PC -DSTRBUF_PROVIDE_PRINTF -DSTRBUF_PROVIDE_PRNF -DSTRBUF_DEFAULT_ALLOCATOR_STDLIB -DSTRBUF_ASSERT_DEFAULT_ALLOCATOR_STDLIB -Wall -Wextra -std=gnu99 -fsanitize=address,undefined -I.. -I.'
            b=sh('gcc %s ../*.c *.c -o %s/test -lm && %s/test'%(FL,o,o),shell=True,cwd=r+'/test')
            a=sh('for f in accessories/*.c accessories/strbuf_crypt/*.c; do gcc -std=gnu99 -w -c $f -o /dev/null -I. -Iaccessories -Iaccessories/strbuf_crypt || exit 1; done',shell=True,cwd=r)
            gate=os.path.join(OUT,s['id'])
            print(s['id'], s['property'], 'demo clean', ok.returncode, 'patched', br.returncode, 'tests', b.returncode, 'acc', a.returncode)
            if ok.returncode: print(ok.stdout[-600:])
            if not br.returncode: print('  NOT BROKEN', br.stdout[-300:])
            if b.returncode: print('  TESTS', [l for l in b.stdout.splitlines() if 'FAIL' in l or 'rror' in l][:6])
            if ok.returncode==0 and br.returncode not in (0,2) and b.returncode==0 and a.returncode==0: s['ok']=True
            else: shutil.rmtree(d)
        finally:
            shutil.rmtree(w)
main()
