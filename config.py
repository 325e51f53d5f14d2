"""C30: every combination of the build options, each one built, linked, inspected and explored."""
import itertools, os, re, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import __main__ as drv

FLAGS = ['STRBUF_PROVIDE_PRINTF', 'STRBUF_PROVIDE_PRNF', 'STRBUF_DEFAULT_ALLOCATOR_STDLIB', 'STRBUF_ASSERT_DEFAULT_ALLOCATOR_STDLIB', 'STRNUM_NOFLOAT']
ALWAYS = '''cstr strview_to_cstr strview_is_valid strview_contains strview_contains_nocase strview_swap strview_is_match_strview strview_is_match_cstr
strview_is_match_nocase_strview strview_is_match_nocase_cstr strview_starts_with_cstr strview_starts_with_strview strview_starts_with_nocase_cstr
strview_starts_with_nocase_strview strview_compare strview_sub strview_trim_strview strview_trim_start_strview strview_trim_end_strview strview_trim_cstr
strview_trim_start_cstr strview_trim_end_cstr strview_find_first_strview strview_find_first_nocase_strview strview_find_first_cstr
strview_find_first_nocase_cstr strview_find_last_strview strview_find_last_nocase_strview strview_find_last_cstr strview_find_last_nocase_cstr
strview_split_all strview_split_first_delim strview_split_last_delim strview_split_index strview_split_left strview_split_right strview_pop_first_char
strview_split_line strview_dequote strbuf_create_empty strbuf_create_init strbuf_create_fixed _strbuf_cat strbuf_vcat strbuf_append_char strbuf_view
strbuf_shrink strbuf_grow strbuf_destroy strbuf_to_cstr strbuf_assign strbuf_append_strview strbuf_append_cstr strbuf_append_using
strbuf_prepend_strview strbuf_prepend_cstr strbuf_insert_at_index_strview strbuf_insert_at_index_cstr strbuf_insert_before_strview
strbuf_insert_before_cstr strbuf_insert_after_strview strbuf_insert_after_cstr strbuf_strip_strview strbuf_strip_cstr strbuf_default_allocator'''.split()
INTS = 'uchar ushort uint ulong ullong char short int long llong'.split()
ALWAYS += ['strnum_consume_' + t for t in INTS] + ['strnum_' + t for t in INTS + 'i8 i16 i32 i64 u8 u16 u32 u64'.split()]
COND = {
    'STRBUF_PROVIDE_PRINTF': ['strbuf_printf', 'strbuf_vprintf', 'strbuf_append_printf', 'strbuf_append_vprintf'],
    'STRBUF_PROVIDE_PRNF': ['strbuf_prnf', 'strbuf_vprnf', 'strbuf_append_prnf', 'strbuf_append_vprnf'],
}
FLOATS = ['strnum_consume_' + t for t in ('float', 'double', 'ldouble')] + ['strnum_' + t for t in ('float', 'double', 'ldouble')]
ACC = ['strbuf_append_read', 'strbuf_write', 'strview_write', 'strbuf_encrypt', 'strbuf_decrypt']
HEADERS = {
    'strview.h': 'int f(void) { strview_t v = cstr_SL("a"); return strview_is_match(v, "a") && strview_is_valid(strview_find_first(v, v)); }',
    'strbuf.h': 'int f(strbuf_t** b) { strview_t v = strbuf_append(b, "x"); strbuf_cat(b, v, cstr("y")); *b = strbuf_create(5, NULL); return v.size; } static strbuf_t* g = STRBUF_FIXED_CAP(5);',
    'strnum.h': 'int f(strview_t v) { int i; unsigned char c; return strnum_value(&i, &v, STRNUM_BASE_HEX) + strnum_value(&c, &v, STRNUM_NOSIGN); }',
    'strbuf_io.h': 'int f(strbuf_t** b) { return strbuf_append_read(b, 0) + strbuf_write(1, b); }',
    'strview_io.h': 'int f(strview_t v) { return strview_write(1, &v); }',
    'strbuf_pack.h': 'int f(strbuf_t** b) { uint32_t x = 5; int8_t y = 1; STRBUF_PACK_BE(b, x); STRBUF_PACK_LE(b, y); return 0; }',
    'strview_unpack.h': 'int f(strview_t v) { uint64_t x; int16_t y; STRVIEW_UNPACK_BE(x, v); STRVIEW_UNPACK_LE(y, v); return (int)x + y; }',
    'xendian.h': 'int f(int x) { return xendian_pack_BE((uint16_t)x) + xendian_unpack_LE(x); }',
    'strbuf_crypt.h': 'strview_t f(strbuf_t** b) { uint8_t k[32], i[16]; strbuf_encrypt(b, k, i); return strbuf_decrypt(b, k, i); }',
}

# growth steps beyond every ordinary size
BIG = [65537 + 32768, 1 << 20, 1 << 24, (1 << 30) - 1, 1 << 30, (1 << 30) + 1, 0x7ffffff0, 0x7ffffffe, 0x7fffffff]

class Bad(Exception):
    pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=300, **kw)
    return r.returncode, r.stdout

def comp(cc, std, src, out, defs, extra=()):
    rc, txt = sh([cc, '-std=' + std, '-w', '-O1', '-c', src, '-o', out] + list(defs) + drv.INC + ['-I' + drv.REPO + '/test'] + list(extra))
    if rc:
        raise Bad('%s does not compile: %s' % (os.path.basename(src), txt[:1500]))
    return out

def symbols(objs):
    """defined external symbols -> type, undefined symbols"""
    d, u = {}, set()
    rc, txt = sh(['nm', '-g'] + objs)
    for l in txt.splitlines():
        p = l.split()
        if len(p) >= 2 and p[-2] in 'Uw' and len(p) == 2:
            u.add(p[-1])
        elif len(p) == 3:
            d[p[2]] = p[1]
    return d, u

LIBM = re.compile(r'^(pow|powf|powl|exp|log|fabs|floor|ceil|ldexp|scalb|scalbn|fmod|frexp|modf|sqrt|round|trunc|rint|exp2|exp10|log10|log2|pow10|nearbyint|copysign)[fl]?$')

def one(args):
    flags, step, cc, std, acc, tmp, idx, tier = args
    on = [f for f, v in zip(FLAGS, flags) if v]
    name = '%s%s %s %s' % (' '.join(on) or '(none)', '' if step is None else ' STRBUF_CAPACITY_GROW_STEP=%d' % step, cc, std)
    d = os.path.join(tmp, 'c%d' % idx)
    os.makedirs(d)
    defs = ['-D' + f for f in on] + ([] if step is None else ['-DSTRBUF_CAPACITY_GROW_STEP=%d' % step])
    res = dict(name=name, defs=defs, bad=None, evals=0, trans=0, states=0, nontriv=0, case='', progs=0, depth=0)
    try:
        core = [comp(cc, std, os.path.join(drv.REPO, f), os.path.join(d, f[:-2] + '.o'), defs) for f in sorted(os.listdir(drv.REPO)) if f.endswith('.c')]
        ext = []
        if acc:
            for i, s in enumerate(drv.sources(('io', 'crypt'))):
                if os.path.dirname(s) != drv.REPO:
                    ext.append(comp(cc, std, s, os.path.join(d, 'a%d.o' % i), defs))
        if 'STRBUF_PROVIDE_PRNF' in on:
            prnf = [comp(cc, std, drv.REPO + '/test/prnf.c', os.path.join(d, 'prnf.o'), defs)]
        else:
            prnf = []
        # what is provided
        have, undef = symbols(core + ext)
        need = list(ALWAYS) + (ACC if acc else [])
        absent = []
        for f, names in COND.items():
            (need if f in on else absent).extend(names)
        (absent if 'STRNUM_NOFLOAT' in on else need).extend(FLOATS)
        for s in need:
            if s not in have:
                raise Bad('%s is not provided' % s)
        for s in absent:
            if s in have:
                raise Bad('%s is provided although the option is not selected' % s)
        if 'STRNUM_NOFLOAT' in on:
            for s in undef:
                if LIBM.match(s):
                    raise Bad('with STRNUM_NOFLOAT the library still needs %s of the maths library' % s)
        if 'STRBUF_DEFAULT_ALLOCATOR_STDLIB' not in on:
            for s in ('malloc', 'free', 'realloc', 'calloc'):
                if s in undef:
                    raise Bad('without STRBUF_DEFAULT_ALLOCATOR_STDLIB the library still uses %s' % s)
        if 'STRBUF_PROVIDE_PRINTF' not in on:
            for s in ('vsnprintf', 'snprintf'):
                if s in undef:
                    raise Bad('without STRBUF_PROVIDE_PRINTF the library still uses %s' % s)
        # behaviour
        progs = [()] + ([('-DAPP_DEFAULT',)] if 'STRBUF_DEFAULT_ALLOCATOR_STDLIB' not in on else [])
        for pi, extra in enumerate(progs):
            big = step is not None and step > 70000
            hd = defs + list(extra) + ['-DEXPECT_STEP=%d' % (16 if step is None else step)] + (['-DACCESSORIES'] if acc else [])
            h = comp(cc, 'gnu11', os.path.join(drv.HERE, 'harness', 'c30_step.c' if big else 'c30_config.c'), os.path.join(d, 'h%d.o' % pi), hd)
            exe = os.path.join(d, 'p%d' % pi)
            rc, txt = sh([cc, h] + core + ext + prnf + ['-o', exe] + ([] if 'STRNUM_NOFLOAT' in on else ['-lm']))
            if rc:
                raise Bad('does not link%s: %s' % (' with strbuf_default_allocator of the application' if extra else '', txt[:1500]))
            j = drv.Job(exe, 'c%d_%d' % (idx, pi), 0, 1, tier, d)
            done, bad = drv.run_jobs([j], time.time() + 200)
            res['progs'] += 1
            res['depth'] = max(res['depth'], j.sh.maxdepth)
            for k in ('evals', 'trans', 'states', 'nontriv'):
                res[k] += getattr(j.sh, k)
            if bad:
                s, i = j.sh.slice, j.sh.inner
                rj = drv.Job(exe, 'c%d_%d' % (idx, pi), 0, 1, tier, d, replay=(s, i), tag='_r')
                rdone, rbad = drv.run_jobs([rj], time.time() + 200)
                res['case'] = rj.sh.desc.decode('utf8', 'replace')
                raise Bad((rj if rbad else j).why())
            if not res.get('sample') and j.sh.nsamples:
                res['sample'] = j.sh.samples[0].value.decode('utf8', 'replace')
        # the assertion of the default allocator
        if 'STRBUF_DEFAULT_ALLOCATOR_STDLIB' in on and 'STRBUF_ASSERT_DEFAULT_ALLOCATOR_STDLIB' in on:
            exe = os.path.join(d, 'oom')
            h = comp(cc, 'gnu11', os.path.join(drv.HERE, 'harness', 'c30_oom.c'), os.path.join(d, 'oom.o'), defs)
            rc, txt = sh([cc, h] + core + prnf + ['-o', exe, '-lm', '-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc'])
            if rc:
                raise Bad('does not link: ' + txt[:1000])
            for op in range(4):
                r = subprocess.run([exe, str(op)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60, cwd=d)
                res['evals'] += 1
                if r.returncode != -signal.SIGABRT:
                    raise Bad('allocation failure in operation %d is not caught by assert (process ended with %d)' % (op, r.returncode))
    except Bad as e:
        res['bad'] = str(e)
    except subprocess.TimeoutExpired:
        res['bad'] = None
        res['timeout'] = True
    finally:
        subprocess.run(['rm', '-rf', d])
    return res

def header(args):
    h, use, flags, cc, tmp, idx = args
    on = ['-D' + f for f, v in zip(FLAGS, flags) if v]
    src = os.path.join(tmp, 'h%d.c' % idx)
    with open(src, 'w') as f:
        f.write('#include "%s"\n%s\n' % (h, use))
    rc, txt = sh([cc, '-std=gnu99', '-w', '-fsyntax-only', src] + on + drv.INC + ['-I' + drv.REPO + '/test'])
    return dict(name='%s alone, %s' % (h, ' '.join(on)), bad=('does not compile when included on its own: ' + txt[:1000]) if rc else None)

def run(pid, spec, tier, seed, tmp, t0):
    steps = [None, 1, 3, 64] if tier == 'quick' else [None] + list(range(1, 41)) + [63, 64, 65, 100, 127, 128, 129, 255, 256, 1000, 1024, 4096, 65536]
    ccs = [('gcc', 'gnu99')] if tier == 'quick' else [('gcc', 'gnu99'), ('clang', 'gnu99'), ('gcc', 'gnu11'), ('gcc', 'gnu17')]
    jobs = []
    for flags in itertools.product((0, 1), repeat=5):
        for cc, std in ccs:
            for st in (steps if (cc, std) == ccs[0] else [None, 1]):
                jobs.append((flags, st, cc, std, st is None, tmp, len(jobs), tier))
        for st in BIG if tier != 'quick' or flags[2:] == (0, 0, 1) else ():
            jobs.append((flags, st, 'gcc', 'gnu99', False, tmp, len(jobs), tier))
        if tier == 'quick' and flags[1] == flags[3]:
            jobs.append((flags, 5, 'clang', 'gnu11', True, tmp, len(jobs), tier))
    hj = []
    for h, use in HEADERS.items():
        for flags in ((0, 0, 0, 0, 0), (1, 1, 1, 1, 1), (1, 1, 1, 1, 0)):
            for cc in ('gcc', 'clang'):
                hj.append((h, use, flags, cc, tmp, len(hj)))
    drv.NPROC = 1
    with ThreadPoolExecutor(8) as ex:
        hres = list(ex.map(header, hj))
        res = list(ex.map(one, jobs))
    if any(r.get('timeout') for r in res):
        raise drv.NoAnswer('a tool did not end')
    bad = [r for r in hres + res if r['bad']]
    cov = dict(evaluations=sum(r['evals'] for r in res) + len(hres), distinct_nontrivial=sum(r['nontriv'] for r in res), rule=spec['rule'],
               configurations=len(res), programs=sum(r['progs'] for r in res), header_builds=len(hres), states=sum(r['states'] for r in res),
               transitions=sum(r['trans'] for r in res), exhaustive=not bad,
               samples=[r['name'] + (': ' + r['sample'] if r.get('sample') else '') for r in res[::max(1, len(res)//10)]][:12],
               bounds=spec['bounds'][tier] if isinstance(spec['bounds'], dict) else spec['bounds'])
    drv.write_evidence(pid, tier, seed, spec['level'], cov, time.time() - t0, len(bad), spec.get('assumptions', []))
    if bad:
        b = bad[0]
        drv.violation(pid, dict(property=pid, what='configuration %s: %s' % (b['name'], b['bad']), case=b.get('case', ''), configuration=b['name'], all_bad=[x['name'] for x in bad][:200],
                                command='python3 %s/check.py %s %s' % (drv.HERE, pid, tier)))
        return 1
    print('%s: held; configurations=%d programs=%d evals=%d' % (pid, len(res), cov['programs'], cov['evaluations']))
    return 0
