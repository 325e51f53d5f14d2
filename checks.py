"""Table of the checks: harness, build variants, level and bounds of every property."""
ASAN = ['-fsanitize=address', '-fno-omit-frame-pointer', '-g']
VARIANTS = {
    'O2':   dict(cc='gcc', cflags=['-O2'] + ASAN),
    'O0':   dict(cc='gcc', cflags=['-O0'] + ASAN),
    'g1':   dict(cc='gcc', cflags=['-O2'] + ASAN, defs=['-DSTRBUF_CAPACITY_GROW_STEP=1']),
    'g3':   dict(cc='gcc', cflags=['-O2'] + ASAN, defs=['-DSTRBUF_CAPACITY_GROW_STEP=3']),
    'g32':  dict(cc='gcc', cflags=['-O2'] + ASAN, defs=['-DSTRBUF_CAPACITY_GROW_STEP=32']),
    'nodef': dict(cc='gcc', cflags=['-O2'] + ASAN, undefs=['-DSTRBUF_DEFAULT_ALLOCATOR_STDLIB', '-DSTRBUF_ASSERT_DEFAULT_ALLOCATOR_STDLIB']),
    'uchar': dict(cc='gcc', cflags=['-O2', '-funsigned-char'] + ASAN),
    'bigend': dict(cc='gcc', cflags=['-O2', '-U__BYTE_ORDER__', '-D__BYTE_ORDER__=__ORDER_BIG_ENDIAN__'] + ASAN),
    'msan': dict(cc='clang', cflags=['-O1', '-fsanitize=memory', '-fno-omit-frame-pointer', '-g']),
    'O3c':  dict(cc='clang', cflags=['-O3'] + ASAN),
}
STD = ['-DSTRBUF_PROVIDE_PRINTF', '-DSTRBUF_DEFAULT_ALLOCATOR_STDLIB', '-DSTRBUF_ASSERT_DEFAULT_ALLOCATOR_STDLIB']
CHECKS = {}
def add(pid, src, level, rule='', bounds='', variants=None, **kw):
    CHECKS[pid] = dict(src=src, level=level, rule=rule, bounds=bounds,
                       variants=variants or dict(quick=['O2'], thorough=['O2', 'O0', 'O3c']), **kw)
    CHECKS[pid].setdefault('defs', STD)

add('C01', 'c01_match.c', 'exploration')
add('C02', 'c02_find.c', 'exploration')
add('C03', 'c03_sub.c', 'exploration')
add('C04', 'c04_trim.c', 'exploration')
add('C05', 'c05_delim.c', 'model_checking')
add('C06', 'c06_line.c', 'model_checking')
add('C07', 'c07_leftright.c', 'exploration')
add('C08', 'c08_cstr.c', 'exploration')
add('C09', 'c09_chain.c', 'model_checking')

BUFV = dict(quick=['O2', 'g3'], thorough=['O2', 'O0', 'O3c', 'g1', 'g3', 'g32'])
def buf(pid, src, flags, **kw):
    add(pid, src, 'model_checking', variants=BUFV, defs=STD + ['-DPROPCHK=(%s)' % flags], **kw)
buf('C10', 'c10_edit.c', 'F_CONTENT|F_VIEW|F_SRC')
buf('C11', 'c11_alias.c', 'F_CONTENT|F_VIEW')
def inv(pid, flags, extra=()):
    buf(pid, 'c12_inv.c', flags, need=('prnf', 'io', 'crypt'), ldflags=['-Wl,--wrap=read,--wrap=write'])
    CHECKS[pid]['defs'] = CHECKS[pid]['defs'] + ['-DSTRBUF_PROVIDE_PRNF'] + list(extra)
inv('C12', 'F_INV')
inv('C13', 'F_FIXED|F_VIEW', ['-DC13'])
inv('C14', 'F_CAP', ['-DC14'])
inv('C15', 'F_ALLOC', ['-DC15'])
CHECKS['C15']['ldflags'] = ['-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=read,--wrap=write']
CHECKS['C15']['variants'] = dict(quick=['O2', 'nodef'], thorough=['O2', 'O0', 'O3c', 'g1', 'g3', 'nodef'])
buf('C16', 'c16_create.c', '0')
CHECKS['C16'].update(level='exploration', harness_is_input=True, variants=dict(quick=['O2'], thorough=['O2', 'O0', 'O3c']))
#	documented: "When used within a function, the capacity may be determined at runtime by providing an integer variable for cap"
CHECKS['C16']['probes'] = [dict(id='fixed-cap-runtime', define='-DRUNTIME_CAP', code='#include "strbuf.h"\nint f(int n) { strbuf_t* b = STRBUF_FIXED_CAP(n); return b->capacity; }\n')]
add('C17', 'c17_max.c', 'exploration', ldflags=['-Wl,--wrap=memcpy,--wrap=memmove,--wrap=__asan_memcpy,--wrap=__asan_memmove,--wrap=__msan_memcpy,--wrap=__msan_memmove'], need=('prnf',), defs=STD + ['-DSTRBUF_PROVIDE_PRNF'], variants=dict(quick=['O2', 'O0', 'O3c'], thorough=['O2', 'O3c', 'g1', 'g32']))
buf('C18', 'c18_printf.c', '0', need=('prnf',))
CHECKS['C18']['defs'] = CHECKS['C18']['defs'] + ['-DSTRBUF_PROVIDE_PRNF']
buf('C19', 'c19_using.c', '0')
CHECKS['C19']['variants'] = dict(quick=['O2'], thorough=['O2', 'O0', 'O3c'])
add('C20', 'c20_invalid.c', 'exploration', need=('prnf', 'io', 'crypt'), ldflags=['-Wl,--wrap=read,--wrap=write'], defs=STD + ['-DSTRBUF_PROVIDE_PRNF'])
add('C25', 'c25_accuracy.c', 'exploration')
add('C21', 'c21_integer.c', 'exploration')
add('C23', 'c23_options.c', 'exploration')
add('C22', 'c22_consume.c', 'model_checking')
add('C24', 'c24_floattext.c', 'exploration')
buf('C26', 'c26_stream.c', '0', need=('io',), ldflags=['-Wl,--wrap=read,--wrap=write'])
CHECKS['C26']['variants'] = dict(quick=['O2'], thorough=['O2', 'O0', 'O3c'])
buf('C27', 'c27_pack.c', '0')
CHECKS['C27'].update(level='exploration', variants=dict(quick=['O2', 'O0', 'bigend'], thorough=['O2', 'O0', 'O3c', 'bigend']))
buf('C28', 'c28_crypt.c', '0', need=('crypt',), ldflags=['-Wl,--wrap=aes256_enc,--wrap=aes256_dec'])
CHECKS['C28']['variants'] = dict(quick=['O2'], thorough=['O2', 'O0', 'O3c', 'g1'])
buf('C29', 'c28_crypt.c', '0', need=('crypt',), ldflags=['-Wl,--wrap=aes256_enc,--wrap=aes256_dec'])
CHECKS['C29']['defs'] = CHECKS['C29']['defs'] + ['-DC29']
CHECKS['C29'].update(level='exploration', variants=dict(quick=['O2'], thorough=['O2', 'O0', 'O3c', 'g1']))
add('C32', 'c32_aes.c', 'exploration', need=('crypt',))
add('C33', 'c33_macros.c', 'exploration', hflags=['-O0', '-g0'], harness_is_input=True)
VARIANTS['nofloat'] = dict(cc='gcc', cflags=['-O2'] + ASAN, defs=['-DSTRNUM_NOFLOAT'])
CHECKS['C33']['variants'] = dict(quick=['O2', 'nofloat'], thorough=['O2', 'O0', 'O3c', 'nofloat'])
VARIANTS['hooked'] = dict(cc='gcc', cflags=['-O1', '-g'])
VARIANTS['hooked0'] = dict(cc='gcc', cflags=['-O0', '-g'])
add('C31', 'c31_interleave.c', 'model_checking', need=('prnf', 'io', 'crypt'), libcflags=['-fsanitize=thread', '-fno-builtin'], defs=STD + ['-DSTRBUF_PROVIDE_PRNF'],
    ldflags=['-Wl,' + ','.join('--wrap=' + f for f in 'memcpy memmove memset memcmp memchr strlen read write'.split())],
    variants=dict(quick=['hooked'], thorough=['hooked', 'hooked0']))
def _c30(*a):
    import config
    return config.run(*a)
add('C30', None, 'exploration', run=_c30)

#	char is unsigned on the embedded hosts this library is for
for _k in ('C01', 'C02', 'C04', 'C06', 'C08', 'C21', 'C22', 'C23', 'C24', 'C26'):
    CHECKS[_k]['variants'] = dict(CHECKS[_k]['variants'], quick=CHECKS[_k]['variants']['quick'] + ['uchar'])
for _k in CHECKS:
    if _k not in ('C30', 'C31'): CHECKS[_k]['variants'] = dict(CHECKS[_k]['variants'], thorough=CHECKS[_k]['variants']['thorough'] + ['uchar'])

#	reads of uninitialised memory
for _k in CHECKS:
    if _k not in ('C30', 'C31'): CHECKS[_k]['variants'] = {t: v + ['msan'] for t, v in CHECKS[_k]['variants'].items()}

import texts
for _k, (_r, _b, _a) in texts.T.items():
    CHECKS[_k].update(rule=_r, bounds=_b, assumptions=_a)
