#!/usr/bin/env python3
"""Development tool, not a check: mutates copies of /repo, keeps the mutants that compile and pass the repository's tests,
and reports those which no check notices.   mutate.py FILE [first last]   (results in /tmp/mut/results.txt)"""
import os, re, subprocess, sys, shutil, glob, json, threading, queue
REPO = '/repo'; W = os.environ.get('MUTDIR', '/tmp/mut'); VD = os.environ.get('VERIF_DIR', '/verif')
SRC = {'strview.c': ['C09','C05','C06','C03','C07','C04','C01','C08','C02','C20'],
       'strview.h': ['C33','C08','C01','C20','C30'],
       'strbuf.c': ['C12','C10','C11','C14','C15','C13','C16','C19','C18','C20','C17','C30'],
       'strbuf.h': ['C33','C16','C12','C10','C30'],
       'strnum.c': ['C21','C24','C23','C22','C25','C20','C30'],
       'strnum.h': ['C33','C22','C21','C30'],
       'accessories/strbuf_io.c': ['C26','C20'], 'accessories/strview_io.c': ['C26','C20'],
       'accessories/strbuf_pack.h': ['C27','C30'], 'accessories/strview_unpack.h': ['C27','C30'], 'accessories/xendian.h': ['C27','C30'],
       'accessories/strbuf_crypt/strbuf_crypt.c': ['C28','C29','C20'],
       'accessories/strbuf_crypt/aes/memxor.c': ['C32','C28'],
       'accessories/strbuf_crypt/aes/gf256mul.c': ['C32','C28','C29'], 'accessories/strbuf_crypt/aes/aes_enc.c': ['C32','C28'], 'accessories/strbuf_crypt/aes/aes_dec.c': ['C32','C28'],
       'accessories/strbuf_crypt/aes/aes_keyschedule.c': ['C32','C28'], 'accessories/strbuf_crypt/aes/aes_sbox.c': ['C32','C28'], 'accessories/strbuf_crypt/aes/aes_invsbox.c': ['C32','C28']}
FLAGS = '-DPLATFORM_PC -DSTRBUF_PROVIDE_PRINTF -DSTRBUF_PROVIDE_PRNF -DSTRBUF_DEFAULT_ALLOCATOR_STDLIB -DSTRBUF_ASSERT_DEFAULT_ALLOCATOR_STDLIB -w -std=gnu99 -fsanitize=address -fsanitize=undefined'.split()
SUB = [(r'<=', ['<']), (r'>=', ['>']), (r'(?<![<>=!-])<(?![<=])', ['<=']), (r'(?<![<>=!-])>(?![>=])', ['>=']), (r'==', ['!=']), (r'!=', ['==']),
       (r'&&', ['||']), (r'\|\|', ['&&']), (r'(?<!\+)\+(?![+=])', ['-']), (r'(?<!-)-(?![-=>])', ['+']), (r'\+\+', ['--']), (r'--', ['++']),
       (r'\+=', ['-=', '=']), (r'-=', ['+=', '=']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'!(?!=)', ['']), (r'\bunsigned char\b', ['signed char']),
       (r'\bINT_MAX\b', ['(INT_MAX-1)', 'INT_MIN']), (r'\bNULL\b', ['((void*)1)']), (r'(?<![\w.])(\d+)(?![\w.])', ['+1', '-1']), (r'<<', ['>>']), (r'>>', ['<<']),
       (r'(?<![&])&(?![&=])', ['|']), (r'(?<!\|)\|(?!\|)', ['&']), (r'\^', ['&']), (r'\bif\(', ['if(1||', 'if(0&&']), (r'\bwhile\(', ['while(0&&']), (r'\bmemmove\b', ['memcpy']),
       (r'\b(size|capacity|cstr|data|src|dst|begin|end|start|pos|needle|haystack)\b', []), (r'0x([0-9A-Fa-f]+)', ['flip'])]

def mutants(f):
    b = open(os.path.join(REPO, f), newline='').read()
    lines = b.split('\n')
    out = []
    inc = False
    for i, l in enumerate(lines):
        s = l.strip()
        if inc:
            if '*/' in s: inc = False
            continue
        if s.startswith('/*'):
            if '*/' not in s: inc = True
            continue
        code = re.split(r'//', l)[0]
        if not s or s.startswith('//') or s.startswith('#include') or s.startswith('#if') or s.startswith('#e') or s.startswith('#pragma'): continue
        st = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + '_'*(len(m.group(0))-2) + '"', code)
        for rx, reps in SUB:
            for m in re.finditer(rx, st):
                for r in reps:
                    t = r
                    if r in ('+1', '-1'):
                        n = int(m.group(1)) + (1 if r == '+1' else -1)
                        if n < 0 and '[' in st: continue
                        t = str(n)
                    elif r == 'flip':
                        if i % 1 == 0: t = '0x%X' % (int(m.group(1), 16) ^ 1)
                    nl = l[:m.start()] + t + l[m.end():]
                    out.append((i, nl, '%s -> %s' % (m.group(0), t)))
        if re.match(r'^\s*[^#{}]*;\s*(\\)?\s*$', code) and not re.match(r'^\s*(return|break|case|default|goto|typedef|static|extern|const|int |char|bool |size_t |strview_t |strbuf_t|unsigned|struct|for|else|do|while|uint|long|float|double|signed)', code):
            out.append((i, ';' if not code.rstrip().endswith('\\') else ';\\', 'delete'))
        if re.match(r'^\s*else\b', code): out.append((i, re.sub(r'\belse\b', '', l), 'no else'))
        if re.match(r'^\s*break;', code): out.append((i, ';', 'no break'))
    return lines, out

#	second set (MUT=ops): operands cut to fewer bits or taken up to a zero byte, local variables made static
IDS = 'index begin end count size_needed append_size available_space bytes_appended len retval new_capacity capacity initial_capacity src_offset dst_size copy_size src_size exp_value fractional_power power step n_args char_count remainder compare_size block_count out_len pad_len content_size min_size addr_size size limit_max limit_min base val_ull val_ll res_ull next_weight post_add result'.split()
def mutants2(f):
    b = open(os.path.join(REPO, f), newline='').read()
    lines = b.split('\n'); out = []; depth = 0
    for i, l in enumerate(lines):
        code = re.split(r'//', l)[0]; s = code.strip()
        if s and not s.startswith(('#', '*', '/*')):
            st = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + '_'*(len(m.group(0))-2) + '"', code)
            for m in re.finditer(r'(\(\*\w+\)|\b\w+)(->|\.)(size|capacity)\b(?!\s*([-+*/|&^]?=[^=]|\+\+|--))', st):
                t = m.group(0)
                if st[:m.start()].rstrip().endswith(('&', '.', '->')): continue
                R = ['(short)%s' % t, '(signed char)%s' % t]
                if m.group(3) == 'size': R.append('(int)strlen(%s->cstr)' % m.group(1) if f.startswith('strbuf') or 'crypt' in f or 'strbuf_io' in f else '(%s%ssize > 0 ? (int)strnlen(%s%sdata, %s%ssize) : %s%ssize)' % ((m.group(1), m.group(2))*4))
                for r in R: out.append((i, l[:m.start()] + r + l[m.end():], '%s -> %s' % (t, r)))
            for w in IDS:
                if f.endswith('.h') or depth == 0: break
                for m in re.finditer(r'(?<![\w.>])%s\b(?!\s*([-+*/|&^]?=[^=]|\+\+|--|<<=|>>=|\())' % w, st):
                    if re.match(r'^\s*(const\s+|unsigned\s+|static\s+)*(int|char|bool|size_t|strview_t|strbuf_t|long|float|double|void|uint8_t)\b[\s*]*$', st[:m.start()]) or st[:m.start()].rstrip().endswith(('&', '.', '++', '--')): continue
                    for r in ('(short)', '(signed char)') + (('(int)',) if w in ('power', 'src_offset', 'dst_size', 'copy_size', 'addr_size') or w.startswith(('val', 'res', 'next', 'post', 'limit')) else ()):
                        out.append((i, l[:m.start()] + r + l[m.start():], '%s%s' % (r, w)))
            if depth > 0 and re.match(r'^\s*(const\s+|unsigned\s+)*(int|char|bool|size_t|strview_t|strbuf_t|long|float|double|uint8_t|aes256_ctx_t|strbuf_allocator_t|unsigned|uint16_t)\b[^()]*;\s*$', code):
                out.append((i, re.sub(r'^(\s*)', r'\1static ', l, count=1), 'static'))
        depth += code.count('{') - code.count('}')
    return lines, out

#	third set (MUT=big): operands which are wrong only beyond a threshold
def mutants3(f):
    b = open(os.path.join(REPO, f), newline='').read()
    lines = b.split('\n'); out = []; depth = 0
    K = int(os.environ.get('MUTK', '5000000'))
    for i, l in enumerate(lines):
        code = re.split(r'//', l)[0]; s = code.strip()
        if s and not s.startswith(('#', '*', '/*')):
            st = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + '_'*(len(m.group(0))-2) + '"', code)
            for m in re.finditer(r'(\(\*\w+\)|\b\w+)(->|\.)(size|capacity)\b(?!\s*([-+*/|&^]?=[^=]|\+\+|--))', st):
                t = m.group(0)
                if st[:m.start()].rstrip().endswith(('&', '.', '->', '++', '--')): continue
                out.append((i, l[:m.start()] + '(%s > %d ? %s-1 : %s)' % (t, K, t, t) + l[m.end():], 'big ' + t))
            for w in IDS:
                if f.endswith('.h') or depth == 0: break
                for m in re.finditer(r'(?<![\w.>])%s\b(?!\s*([-+*/|&^]?=[^=]|\+\+|--|<<=|>>=|\())' % w, st):
                    if re.match(r'^\s*(const\s+|unsigned\s+|static\s+)*(int|char|bool|size_t|strview_t|strbuf_t|long|float|double|void|uint8_t)\b[\s*]*$', st[:m.start()]) or st[:m.start()].rstrip().endswith(('&', '.', '++', '--')): continue
                    out.append((i, l[:m.start()] + '(%s > %d ? %s-1 : %s)' % (w, K, w, w) + l[m.end():], 'big ' + w))
        depth += code.count('{') - code.count('}')
    return lines, out

def sh(cmd, cwd=None, t=60, env=None):
    try:
        r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=env)
        return r.returncode, r.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        return 124, ''
    except OSError:		# text file busy: another thread is between fork and exec
        import time; time.sleep(0.2)
        return sh(cmd, cwd, t, env)

def worker(n, f, lines, q, log, sem):
    d = '%s/w%d' % (W, n)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(REPO, d, ignore=shutil.ignore_patterns('.git', '_build'))
    o = d + '_o'; os.makedirs(o, exist_ok=True)
    hdr = f.endswith('.h'); core = '/' not in f
    tc = sorted(glob.glob(d + '/*.c') + glob.glob(d + '/test/*.c'))
    def comp(s): return sh(['gcc'] + FLAGS + ['-I'+d, '-I'+d+'/test', '-c', s, '-o', o + '/' + os.path.basename(s) + '.o'], cwd=d + '/test')
    for s in tc: comp(s)
    inc = ['-I'+d, '-I'+d+'/accessories', '-I'+d+'/test', '-I'+d+'/accessories/strbuf_crypt', '-I'+d+'/accessories/strbuf_crypt/aes']
    defs = [x for x in FLAGS if x.startswith('-D')]
    def o2(): return sh(['gcc', '-O2', '-w', '-std=gnu99', '-c', os.path.join(d, f), '-o', o + '/x.o'] + inc + defs)[0], (open(o + '/x.o', 'rb').read() if os.path.exists(o+'/x.o') else b'')
    base = o2()[1] if not hdr else None
    while True:
        try: k, (i, nl, what) = q.get_nowait()
        except queue.Empty: break
        new = list(lines); new[i] = nl
        open(os.path.join(d, f), 'w', newline='').write('\n'.join(new))
        tag = '%s:%d [%s] %s' % (f, i+1, what, nl.strip()[:110])
        if not hdr:
            rc, b = o2()
            if rc: log(k, 'NOCOMPILE', tag); continue
            if b == base: log(k, 'SAME', tag); continue
        if core:
            bad = False
            for s in (tc if hdr else [os.path.join(d, f)]):
                if comp(s)[0]: bad = True; break
            if bad: log(k, 'NOCOMPILE', tag); continue
            rc, _ = sh(['gcc'] + FLAGS + glob.glob(o + '/*.c.o') + ['-o', o + '/test', '-lm'])
            if rc: log(k, 'NOLINK', tag); continue
            rc, _ = sh([o + '/test'], cwd=d + '/test', t=20)
            if rc: log(k, 'TESTS', tag); continue
        hit = None; seen = []
        with sem:
            for c in SRC[f] + (['C31'] if os.environ.get('MUT') == 'ops' else []):
                rc, txt = sh(['python3', VD + '/check.py', c, 'quick'], cwd=VD, t=600, env=dict(os.environ, VERIF_REPO=d))
                if rc == 1: hit = c; break
                if rc == 2: seen.append(c + '?')
        log(k, 'CAUGHT ' + hit if hit else 'MISSED ' + ' '.join(seen), tag)

def main():
    f = sys.argv[1]
    lines, ms = {'ops': mutants2, 'big': mutants3}.get(os.environ.get('MUT'), mutants)(f)
    a, b = (int(sys.argv[2]), int(sys.argv[3])) if len(sys.argv) > 3 else (0, len(ms))
    os.makedirs(W, exist_ok=True)
    q = queue.Queue()
    for k, m in enumerate(ms[a:b]): q.put((a+k, m))
    lk = threading.Lock(); fo = open(W + '/results.txt', 'a')
    print(f, 'mutants:', len(ms), flush=True)
    cnt = {}
    def log(k, st, tag):
        with lk:
            fo.write('%d\t%s\t%s\n' % (k, st, tag)); fo.flush()
            cnt[st.split()[0]] = cnt.get(st.split()[0], 0) + 1
            if st.startswith('MISSED'): print(k, st, tag, flush=True)
    sem = threading.Semaphore(3)
    T = [threading.Thread(target=worker, args=(n, f, lines, q, log, sem)) for n in range(6)]
    for t in T: t.start()
    for t in T: t.join()
    print(f, cnt)
    for n in range(6):
        shutil.rmtree('%s/w%d' % (W, n), ignore_errors=True); shutil.rmtree('%s/w%d_o' % (W, n), ignore_errors=True)
main()
