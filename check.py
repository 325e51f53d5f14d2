#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]

Builds the harness of one property from /repo's current working tree, explores its whole bounded space with it, writes
/verif/evidence/<id>.json and exits 0 (held everywhere), 1 (VIOLATION line printed) or 2 (no answer: build or tool error).
"""
import json, mmap, os, re, shutil, signal, struct, subprocess, sys, tempfile, time, ctypes
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
from checks import CHECKS, VARIANTS      # noqa: E402

NPROC = min(8, os.cpu_count() or 8)
HANG_S = 90 if len(sys.argv) < 3 or sys.argv[2] != "thorough" else 900
TOTAL_S = 840

class Shared(ctypes.Structure):
    _fields_ = [('failed', ctypes.c_int), ('done', ctypes.c_int), ('slice', ctypes.c_long), ('inner', ctypes.c_long),
                ('tick', ctypes.c_ulong)] + \
               [(n, ctypes.c_ulong) for n in ('evals', 'nontriv', 'states', 'trans', 'traces', 'maxdepth')] + \
               [('nsamples', ctypes.c_int), ('samples', (ctypes.c_char * 600) * 6), ('fail', ctypes.c_char * 8192),
                ('desc', ctypes.c_char * 8192), ('section', ctypes.c_char * 64), ('nsec', ctypes.c_int),
                ('sec', type('Sec', (ctypes.Structure,), {'_fields_': [('name', ctypes.c_char * 56), ('evals', ctypes.c_ulong)]}) * 40)]

def sources(need):
    out = []
    def add(d, rec):
        for root, dirs, files in os.walk(d):
            for f in sorted(files):
                if f.endswith('.c'):
                    out.append(os.path.join(root, f))
            if not rec:
                dirs[:] = []
    add(REPO, False)
    if 'io' in need:
        add(os.path.join(REPO, 'accessories'), False)
    if 'crypt' in need:
        add(os.path.join(REPO, 'accessories', 'strbuf_crypt'), True)
    if 'prnf' in need:
        out.append(os.path.join(REPO, 'test', 'prnf.c'))
    return out

INC = ['-I' + REPO, '-I' + REPO + '/accessories', '-I' + REPO + '/accessories/strbuf_crypt',
       '-I' + REPO + '/accessories/strbuf_crypt/aes', '-I' + HERE + '/harness']

class NoAnswer(Exception):
    pass

class HarnessRejected(Exception):
    """the library compiles, a program which uses its interface as documented does not"""

def sh(cmd, timeout=300):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
    return r.returncode, r.stdout

def known_findings(pid):
    """the identities of the recorded, unrepaired findings of a property"""
    out = {}
    with open(os.path.join(HERE, 'known_findings.txt')) as f:
        for l in f:
            m = re.match(r'finding: property=(\S+) id=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out

def probe(pid, spec, pr, tmp):
    """a documented use of the interface which is not known to compile: the harness explores it where it does"""
    src = os.path.join(tmp, pr['id'] + '.c')
    with open(src, 'w') as f:
        f.write(pr['code'])
    bad = ''
    for cc in ('gcc', 'clang'):
        rc, txt = sh([cc, '-std=gnu99', '-w', '-fsyntax-only', src] + INC)
        if rc:
            bad = '%s: %s' % (cc, ' '.join([l for l in txt.splitlines() if 'error' in l][:1]))
    if not bad:
        return [pr['define']]
    known = known_findings(pid)
    if pr['id'] not in known:
        raise HarnessRejected('%s error: does not compile: %s' % (pr['code'].replace('\n', ' '), bad))
    print('KNOWN-FINDING: property=%s %s' % (pid, known[pr['id']]))
    return []

def build(spec, vname, tmp):
    v = VARIANTS[vname]
    need = spec.get('need', ())
    defs = list(v.get('defs', ())) + [d for d in spec.get('defs', ()) if d not in v.get('undefs', ())] + spec.get('probed', [])
    inc = INC + (['-I' + REPO + '/test'] if 'prnf' in need else [])
    d = os.path.join(tmp, vname)
    os.makedirs(d, exist_ok=True)
    jobs, objs = [], []
    for i, s in enumerate(sources(need)):
        o = os.path.join(d, '%d_%s.o' % (i, os.path.basename(s)[:-2]))
        jobs.append([v['cc'], '-std=gnu99', '-w', '-c', s, '-o', o] + v['cflags'] + list(spec.get('libcflags', ())) + defs + inc)
        objs.append(o)
    o = os.path.join(d, 'harness.o')
    jobs.append([v['cc'], '-std=gnu11', '-w', '-c', os.path.join(HERE, 'harness', spec['src']), '-o', o] + v['cflags'] + v.get('hflags', []) + list(spec.get('hflags', ())) + defs + inc)
    objs.append(o)
    with ThreadPoolExecutor(NPROC) as ex:
        for cmd, (rc, txt) in zip(jobs, ex.map(sh, jobs)):
            if rc:
                if cmd is jobs[-1] and spec.get('harness_is_input'):
                    raise HarnessRejected('%s\n%s' % (' '.join(cmd), txt))
                raise NoAnswer('compile failed: %s\n%s' % (' '.join(cmd), txt))
    exe = os.path.join(d, 'h')
    rc, txt = sh([v['cc']] + v['cflags'] + objs + ['-o', exe] + list(spec.get('ldflags', ())) + ['-lm'] + list(spec.get('libs', ())))
    if rc:
        raise NoAnswer('link failed: ' + txt)
    return exe

def env():
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = ('exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_abort=1:'
                         'hard_rss_limit_mb=3500:max_allocation_size_mb=3000:detect_stack_use_after_return=0:'
                         'quarantine_size_mb=16:print_summary=1:symbolize=1:malloc_context_size=6:'
                         'detect_invalid_pointer_pairs=0:strict_memcmp=1:replace_intrin=1')
    e['MSAN_OPTIONS'] = 'exitcode=99:abort_on_error=0:allocator_may_return_null=1:symbolize=1:malloc_context_size=6:print_summary=1:poison_in_malloc=1:poison_in_free=1'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=0'
    e['LC_ALL'] = 'C'
    return e

class Job:
    def __init__(self, exe, vname, shard, n, tier, tmp, replay=None, tag=''):
        self.vname, self.shard, self.n, self.exe, self.tier, self.replay = vname, shard, n, exe, tier, replay
        base = os.path.join(tmp, '%s_%d_%d%s' % (vname, shard, n, tag))
        self.shm, self.err = base + '.shm', base + '.err'
        self.args = [exe, '--shm', self.shm, '--shard', str(shard), str(n), '--tier', tier]
        if replay:
            self.args += ['--replay', str(replay[0]), str(replay[1])]
        self.p = None
        self.hung = False
    def start(self):
        with open(self.shm, 'wb') as f:
            f.truncate((ctypes.sizeof(Shared) + 4095) & ~4095)
        self.f = open(self.shm, 'r+b')
        self.mm = mmap.mmap(self.f.fileno(), 0)
        self.sh = Shared.from_buffer(self.mm)
        self.ef = open(self.err, 'wb')
        wd = os.path.join(os.path.dirname(self.shm), 'cwd')
        os.makedirs(wd, exist_ok=True)
        self.p = subprocess.Popen(self.args, stdin=subprocess.DEVNULL, stdout=self.ef, stderr=self.ef, env=env(), cwd=wd, start_new_session=True)
        self.last, self.t0 = -1, time.time()
        self.started = self.t0
    def poll(self):
        rc = self.p.poll()
        if rc is None:
            t = self.sh.tick
            if t != self.last:
                self.last, self.t0 = t, time.time()
            elif time.time() - self.t0 > HANG_S:
                self.hung = True
                self.kill()
                return -9
        return rc
    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()
    def close(self):
        self.ef.close()
    def errtext(self):
        try:
            with open(self.err, 'rb') as f:
                return f.read(20000).decode('utf8', 'replace')
        except OSError:
            return ''
    def bad(self):
        return self.hung or self.p.returncode != 0 or self.sh.failed or not self.sh.done
    def why(self):
        if self.hung:
            return 'no progress for %d s (hang)' % HANG_S
        if self.sh.failed:
            return self.sh.fail.decode('utf8', 'replace')
        e = self.errtext()
        m = re.search(r'(ERROR: AddressSanitizer[^\n]*|WARNING: MemorySanitizer[^\n]*|hard rss limit[^\n]*|Assertion[^\n]*|runtime error[^\n]*)', e)
        return 'process ended with code %s%s' % (self.p.returncode, (': ' + m.group(1)) if m else '')

def run_jobs(jobs, deadline, stop_on_bad=True):
    pending, running, done = list(jobs), [], []
    bad = None
    while pending or running:
        while pending and len(running) < NPROC and not (bad and stop_on_bad):
            j = pending.pop(0)
            j.start()
            running.append(j)
        for j in list(running):
            if j.poll() is not None:
                j.close()
                running.remove(j)
                done.append(j)
                if j.bad() and bad is None:
                    bad = j
        if bad and stop_on_bad:
            for j in running:
                j.kill()
                j.close()
            return done, bad
        if time.time() > deadline:
            for j in running:
                j.kill()
                j.close()
            raise NoAnswer('time limit reached before the exploration was complete')
        time.sleep(0.01)
    return done, bad

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    tier = 'thorough' if tier == 'thorough' else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    spec = CHECKS[pid]
    t0 = time.time()
    total = TOTAL_S if tier == 'quick' else 24 * 3600
    tmp = tempfile.mkdtemp(prefix='vh_%s_' % pid)
    rc = 2
    try:
        rc = spec['run'](pid, spec, tier, seed, tmp, t0) if 'run' in spec else explore(pid, spec, tier, seed, tmp, t0, t0 + total)
    except HarnessRejected as e:
        #   the harness is itself a program of the explored space
        first = [l for l in str(e).splitlines() if 'error' in l][:3]
        violation(pid, dict(property=pid, what='the documented uses of the interface in harness/%s no longer compile: %s' % (spec['src'], ' '.join(first)), case='', stderr=str(e)[:6000]))
        write_evidence(pid, tier, seed, spec['level'], dict(samples=first or ['-'], evaluations=1, distinct_nontrivial=1, rule=spec['rule'], exhaustive=False), time.time() - t0, 1, spec.get('assumptions', []))
        rc = 1
    except NoAnswer as e:
        print('NO ANSWER property=%s: %s' % (pid, e))
        rc = 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def violation(pid, info):
    rd = os.path.join(HERE, 'out', 'replays')
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, pid + '.json')
    with open(path, 'w') as f:
        json.dump(info, f, indent=1)
    print('%s: %s' % (pid, info['what'].replace('\n', ' ')[:1500]))
    if info.get('case'):
        print('%s: case: %s' % (pid, info['case'].replace('\n', ' ')[:1500]))
    print('VIOLATION property=%s replay=%s' % (pid, path))

def write_evidence(pid, tier, seed, level, cov, wall, nviol, assumptions):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(wall, 2), violations=nviol, assumptions=assumptions)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

def explore(pid, spec, tier, seed, tmp, t0, deadline):
    variants = spec['variants'][tier] if isinstance(spec['variants'], dict) else spec['variants']
    spec = dict(spec, probed=[d for pr in spec.get('probes', ()) for d in probe(pid, spec, pr, tmp)])
    with ThreadPoolExecutor(4) as ex:
        exes = dict(zip(variants, ex.map(lambda v: build(spec, v, tmp), variants)))
    n = spec.get('shards', 16)
    jobs = [Job(exes[v], v, s, n, tier, tmp) for v in variants for s in range(n)]
    done, bad = run_jobs(jobs, deadline)
    nviol = 0
    if bad:
        nviol = 1
        # replay the single case alone
        s, i = bad.sh.slice, bad.sh.inner
        what, case, alone = bad.why(), bad.sh.desc.decode('utf8', 'replace') if bad.replay else '', False
        rj = Job(bad.exe, bad.vname, 0, 1, tier, tmp, replay=(s, i), tag='_replay')
        rdone, rbad = run_jobs([rj], time.time() + 200)
        if rbad:
            alone = True
            what = rj.why()
        elif bad.hung:
            raise NoAnswer('a worker made no progress for %d s, but the case passes when run alone' % HANG_S)
        case = rj.sh.desc.decode('utf8', 'replace')
        violation(pid, dict(property=pid, what=what, case=case, variant=bad.vname, slice=s, inner=i, reproduced_alone=alone,
                            command='python3 %s/check.py %s %s' % (HERE, pid, tier), harness=spec['src'], stderr=(rj.errtext() if rbad else bad.errtext())[:6000]))
    tot = {k: 0 for k in ('evals', 'nontriv', 'states', 'trans', 'traces')}
    depth, samples, sections, distinct = 0, [], {}, 0
    for j in done:
        for k in tot:
            tot[k] += getattr(j.sh, k)
        depth = max(depth, j.sh.maxdepth)
        distinct += j.sh.nontriv if j.vname == variants[0] else 0     # the other builds run the same cases again
        for q in range(j.sh.nsec):
            nm = j.sh.sec[q].name.decode()
            if nm != 'default' or j.sh.sec[q].evals: sections[nm] = sections.get(nm, 0) + j.sh.sec[q].evals
        if len(samples) < 12:
            for q in range(min(2, j.sh.nsamples)):
                t = j.sh.samples[q].value.decode('utf8', 'replace')
                if t not in samples:
                    samples.append(t)
    if not bad and not (sections and all(sections.values())):
        raise NoAnswer('nothing was explored in: ' + ', '.join(k for k in sections if not sections[k]))
    cov = dict(samples=samples[:12] or ['(no sample recorded)'], sections=sections, build_variants=list(variants), exhaustive=not bad)
    if spec['level'] == 'model_checking':
        cov.update(states=tot['states'], transitions=tot['trans'], traces_validated_against_impl=tot['traces'], cases=tot['evals'], max_depth=depth)
    else:
        cov.update(evaluations=tot['evals'], distinct_nontrivial=distinct, rule=spec['rule'])
        if tot['states']:
            cov.update(states=tot['states'])
    cov['bounds'] = spec['bounds'][tier] if isinstance(spec.get('bounds'), dict) else spec.get('bounds', '')
    write_evidence(pid, tier, seed, spec['level'], cov, time.time() - t0, nviol, spec.get('assumptions', []))
    if not nviol:
        print('%s: held; %s' % (pid, ' '.join('%s=%d' % (k, tot[k]) for k in tot if tot[k])))
    return 1 if nviol else 0

if __name__ == '__main__':
    main()
