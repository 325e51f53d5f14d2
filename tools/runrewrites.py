#!/usr/bin/env python3
"""Development tool, not a check: applies the independent rewrites of the library's functions (tools/rewrites/*.py) to scratch
copies of /repo and runs the quick checks, all of which must stay quiet.   runrewrites.py [ids or FILE.py ...]"""
import glob, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
bad = 0
files = [a for a in sys.argv[1:] if a.endswith('.py')]; ids = [a for a in sys.argv[1:] if not a.endswith('.py')]
for f in sorted(glob.glob(V + '/tools/rewrites/*.py')):
    if files and os.path.basename(f) not in files: continue
    tmp = tempfile.mkdtemp(prefix='rewrite_')
    d = tmp + '/repo'
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git'))
    subprocess.check_call(['python3', f, d])
    for c in ids or sorted(CHECKS):
        r = subprocess.run(['python3', V + '/check.py', c, 'quick'], cwd=V, env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
        print(os.path.basename(f), c, 'quiet' if r.returncode == 0 else 'ALARM %d %s' % (r.returncode, r.stdout[-400:]), flush=True)
        bad += r.returncode != 0
    shutil.rmtree(tmp)
sys.exit(bad > 0)
