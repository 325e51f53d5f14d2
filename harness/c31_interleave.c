/*
	C31 operations on distinct objects under every schedule.

	The library is compiled with the instrumentation of memory accesses of -fsanitize=thread, without its runtime: each
	read and write of the library calls hook() below, as do the callbacks (allocator, fetcher, read, write) and the memory
	and string functions of the C library. Two operations run as coroutines, and hook() is where one of them may be
	suspended and the other continued, so a schedule is a list of how many accesses each makes in turn. All schedules up to
	a number of preemptions are executed, and both operations must give what they give when run alone.
*/
#include "vh.h"
#include <ucontext.h>
#include <stdarg.h>
#include "strbuf.h"
#include "strview.h"
#include "strnum.h"
#include "strbuf_io.h"
#include "strview_io.h"
#include "strbuf_pack.h"
#include "strview_unpack.h"
#include "strbuf_crypt.h"

#define MEM (1<<16)
typedef struct
{
	int v;						// which data set
	bool shared;				// the source text is that of the other one too
	strbuf_allocator_t alc;
	const char* t; int tn;		// source text, NUL terminated
	uint8_t* key; uint8_t* iv;
	long top; int live;
	int n; unsigned char out[6000];
	unsigned char mem[MEM] __attribute__((aligned(64)));
	struct { unsigned char in[64]; int nin, pos, nout; unsigned char got[200]; } fd;
} W;
static W w2[2];
typedef struct { const char* name; void (*f)(W*); bool shared, big; } op_t;

//	---- scheduler ----
#define STK (1<<18)
static unsigned char stk[2][STK] __attribute__((aligned(4096)));
static ucontext_t ctx[2], mainctx;
static volatile int cur = -1;			// which coroutine runs, -1 none
static volatile long left;				// accesses until the next switch
static volatile bool finished[2];
static long seg[8]; static volatile int seg_n, seg_i;
static volatile long acc;				// accesses made
static bool recording;
typedef struct { uintptr_t a; unsigned n; bool w; } acc_t;
#define MAXACC (1<<18)
static acc_t* accs; static long nacc;
static void take_seg(void) { left = seg_i < seg_n ? seg[seg_i++] : LONG_MAX; }
static void hook(const void* p, unsigned long n, bool w)
{
	if(cur < 0) return;
	acc++;
	if(recording)
	{
		uintptr_t a = (uintptr_t)p;
		if(!(a >= (uintptr_t)stk[cur] && a < (uintptr_t)stk[cur]+STK) && nacc < MAXACC && n) accs[nacc++] = (acc_t){a, (unsigned)n, w};
	}
	if(left == LONG_MAX || --left > 0) return;
	take_seg();
	if(finished[!cur]) return;
	int me = cur;
	cur = !me;
	swapcontext(&ctx[me], &ctx[!me]);
}
static op_t* running[2];
static void body(int i)
{
	running[i]->f(&w2[i]);
	finished[i] = true;
	if(!finished[!i]) { cur = !i; take_seg(); setcontext(&ctx[!i]); }
	cur = -1;
	setcontext(&mainctx);
}
static void run(op_t* a, op_t* b)
{
	running[0] = a; running[1] = b;
	finished[0] = !a; finished[1] = !b;
	for(int i=0; i<2; i++)
	{
		getcontext(&ctx[i]);
		ctx[i].uc_stack.ss_sp = stk[i]; ctx[i].uc_stack.ss_size = STK; ctx[i].uc_link = NULL;
		makecontext(&ctx[i], (void(*)(void))body, 1, i);
	}
	seg_i = 0; acc = 0;
	take_seg();
	volatile bool back = false;
	getcontext(&mainctx);
	if(!back) { back = true; cur = a ? 0 : 1; setcontext(&ctx[cur]); }
}
#define TR(n) void __tsan_read##n(void* p) { hook(p, n, false); } void __tsan_write##n(void* p) { hook(p, n, true); } \
	void __tsan_unaligned_read##n(void* p) { hook(p, n, false); } void __tsan_unaligned_write##n(void* p) { hook(p, n, true); } \
	void __tsan_volatile_read##n(void* p) { hook(p, n, false); } void __tsan_volatile_write##n(void* p) { hook(p, n, true); } \
	void __tsan_unaligned_volatile_read##n(void* p) { hook(p, n, false); } void __tsan_unaligned_volatile_write##n(void* p) { hook(p, n, true); }
TR(1) TR(2) TR(4) TR(8) TR(16)
void __tsan_read_range(void* p, unsigned long n) { hook(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { hook(p, n, true); }
void __tsan_init(void) {}
void __tsan_func_entry(void* p) { hook(p, 0, false); }
void __tsan_func_exit(void) {}
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t); void* __real_memchr(const void*, int, size_t); size_t __real_strlen(const char*);
void* __wrap_memcpy(void* d, const void* s, size_t n) { hook(s, n, false); hook(d, n, true); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { hook(s, n, false); hook(d, n, true); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { hook(d, n, true); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { hook(a, n, false); hook(b, n, false); return __real_memcmp(a, b, n); }
void* __wrap_memchr(const void* a, int c, size_t n) { hook(a, n, false); return __real_memchr(a, c, n); }
size_t __wrap_strlen(const char* s) { size_t n = __real_strlen(s); hook(s, n+1, false); return n; }

//	---- environment of one operation ----
static void* alloc(strbuf_allocator_t* self, void* p, size_t n)
{
	W* w = self->app_data;
	hook(w, 1, false);
	if(!n) { if(p) w->live--; return NULL; }
	if(w->top + (long)n + 64 > MEM) return NULL;
	unsigned char* q = w->mem + w->top;
	w->top = (w->top + (long)n + 8 + 63) & ~63L;
	*(long*)q = (long)n; q += 64;
	w->top += 64;
	__real_memset(q, 0xA5, n);
	if(p) { long o = *(long*)((unsigned char*)p-64); __real_memcpy(q, p, o < (long)n ? o : (long)n); __real_memset(p, 0xEE, o); }
	else w->live++;
	hook(w, 1, false);
	return q;
}
static int fetcher(void* d, int space, void* vars)
{
	W* w = vars;
	int n = space < 9 ? space : 9;
	hook(w, 1, false);
	for(int i=0; i<n; i++) { ((char*)d)[i] = (char)('f'+i+w->v*7); hook(d, 1, true); }
	return n;
}
ssize_t __wrap_read(int fd, void* p, size_t n)
{
	W* w = &w2[fd-70];
	hook(w, 1, false);
	if(n > 5) n = 5;
	if((int)n > w->fd.nin - w->fd.pos) n = w->fd.nin - w->fd.pos;
	__real_memcpy(p, w->fd.in + w->fd.pos, n);
	w->fd.pos += (int)n;
	hook(w, 1, false);
	return (ssize_t)n;
}
ssize_t __wrap_write(int fd, const void* p, size_t n)
{
	W* w = &w2[fd-70];
	hook(w, 1, false);
	if(n > 7) n = 7;
	if(w->fd.nout + n > sizeof(w->fd.got)) return -1;
	__real_memcpy(w->fd.got + w->fd.nout, p, n);
	w->fd.nout += (int)n;
	hook(w, 1, false);
	return (ssize_t)n;
}
static int FDN(W* w) { return 70 + (int)(w - w2); }
static void E(W* w, const void* p, int n)
{
	if(w->n + n > (int)sizeof(w->out)) vh_fail("harness: output of an operation too long");
	__real_memcpy(w->out + w->n, p, n); w->n += n;
}
static void EI(W* w, long long v) { E(w, &v, 8); }
static void EV(W* w, strview_t r, const char* base)
{
	EI(w, !r.data); EI(w, r.size);
	if(base) EI(w, r.data && r.size ? r.data - base : 0);
	if(r.data && r.size > 0 && r.size < 400) E(w, r.data, r.size);
}
static void EB(W* w, strbuf_t* b)
{
	EI(w, b->size); EI(w, b->capacity); EI(w, b->allocator.app_data == w);
	E(w, b->cstr, b->size+1);
}
#define V(p,n) ((strview_t){(p),(n)})
#define T V(w->t, w->tn)
static const char* TEXT[2] = { "  'name: Alpha, beta';\"x,y\" 0x1F -12.5e2\r\nnext line, name: end  ", "\t\"item= Gamma; delta\";'p;q' 0b101 +7.25E-1\n\rother; item= fins \t" };
static const char* PAT[2] = {"name: ", "item= "};
static const char* PATU[2] = {"NAME: ", "ITEM= "};
static const char* DELS[2] = {", ", ";="};
static const char* DIG[2] = {"  -7001x", "\t+123 "};
static const char* HEX[2] = {"0x7fE1z", "0XABCDEF01 "};
static const char* BIN[2] = {"0b1011012", "0B11110000_"};
static const char* FLT[2] = {"-1234.5678e-3,", "9.875E+12;"};

static void o_match(W* w)
{
	const char* p = PAT[w->v], *u = PATU[w->v];
	strview_t f = V(strstr(w->t, p), 20);
	EI(w, strview_is_match(T, TEXT[w->v])); EI(w, strview_is_match_strview(V(f.data, 6), cstr(p))); EI(w, strview_is_match_nocase(V(f.data, 6), u));
	EI(w, strview_starts_with(f, p)); EI(w, strview_starts_with_nocase(f, cstr(u))); EI(w, strview_starts_with(f, u)); EI(w, strview_starts_with_nocase(f, u));
	int c = strview_compare(f, cstr(p)); EI(w, (c > 0) - (c < 0));
	c = strview_compare(cstr(u), f); EI(w, (c > 0) - (c < 0));
}
static void o_find(W* w)
{
	const char* p = PAT[w->v], *u = PATU[w->v];
	EV(w, strview_find_first(T, p), w->t); EV(w, strview_find_last(T, cstr(p)), w->t);
	EI(w, strview_contains(T, cstr(u))); EV(w, strview_find_last_nocase(T, cstr(u)), w->t);
}
static void o_find_nocase(W* w) { EV(w, strview_find_first_nocase(T, PATU[w->v]), w->t); EI(w, strview_contains_nocase(T, cstr(PATU[w->v]))); }
static void o_trim(W* w)
{
	const char* s = w->v ? "\t " : " ";
	EV(w, strview_trim(T, s), w->t); EV(w, strview_trim_start(T, cstr(s)), w->t); EV(w, strview_trim_end(T, s), w->t);
	EV(w, strview_dequote(V(w->t + 2 - w->v, 19 + w->v)), w->t); EV(w, strview_dequote(w->v ? cstr("''\"k\"''") : cstr("\"\"'q'\"\"")), NULL);
}
static void o_first(W* w) { strview_t s = T; for(int i=0; i<4; i++) { EV(w, strview_split_first_delim(&s, DELS[w->v], true), w->t); EV(w, s, w->t); } }
static void o_last(W* w) { strview_t s = T; for(int i=0; i<3; i++) { EV(w, strview_split_last_delim(&s, DELS[w->v], i != 1), w->t); EV(w, s, w->t); } }
static void o_all(W* w) { strview_t d[6]; int n = strview_split_all(6, d, T, DELS[w->v], true); EI(w, n); for(int i=0; i<n; i++) EV(w, d[i], w->t); }
static void o_line(W* w)
{
	strview_t s = w->v ? cstr("one\n\r\n\rtwo\r\nrest") : cstr("ab\r\n\ncde\n\rf");
	const char* base = s.data; char eol = 0; int end = s.size;
	s.size = 0;
	for(int i=0; i<=end; i++) { EV(w, strview_split_line(&s, &eol), base); EV(w, s, base); if(i < end) s.size++; }
	s = T; for(int i=0; i<3; i++) EV(w, strview_split_line(&s, NULL), w->t);
}
static void o_slice(W* w)
{
	strview_t s = T, x = V(w->t+3, 4);
	EV(w, strview_sub(s, 3+w->v, -2), w->t); EV(w, strview_split_index(&s, 5+w->v), w->t); EV(w, strview_split_index(&s, -6+w->v), w->t);
	EV(w, strview_split_left(&s, V(s.data+4+w->v, 2)), w->t); EV(w, strview_split_right(&s, V(s.data+9+w->v, 2)), w->t);
	EI(w, strview_pop_first_char(&s)); strview_swap(&s, &x); EV(w, s, w->t); EV(w, x, w->t);
}
static void o_tocstr(W* w)
{
	char d[80];
	memset(d, 'q', sizeof(d));
	EI(w, strview_to_cstr(d, 20+w->v*9, T) == d); E(w, d, sizeof(d));
	strview_to_cstr(d, sizeof(d), T); E(w, d, sizeof(d));
}
static strbuf_t* mk(W* w, int cap) { return strbuf_create(cap, &w->alc); }
static strbuf_t* mkfix(W* w, int cap) { void* p = w->mem + w->top; w->top += (cap + 100 + 63) & ~63; return strbuf_create_fixed(p, offsetof(strbuf_t, cstr) + cap + 1); }
static void done(W* w, strbuf_t* b) { EB(w, b); strbuf_destroy(&b); EI(w, b == NULL); EI(w, w->live); }
static void o_append(W* w)
{
	strbuf_t* b = mk(w, 3);
	EV(w, strbuf_assign(&b, V(w->t+4, 11)), NULL); EV(w, strbuf_append(&b, T), NULL); EV(w, strbuf_append(&b, PAT[w->v]), NULL); EV(w, strbuf_append_char(&b, 'A'+w->v), NULL);
	strbuf_append(&b, V(b->cstr+2, 20));
	done(w, b);
}
static void o_prepend(W* w)
{
	strbuf_t* b = mk(w, 40);
	strbuf_assign(&b, V(w->t+1, 30));
	EV(w, strbuf_prepend(&b, PAT[w->v]), NULL); EV(w, strbuf_prepend(&b, V(w->t, 21+w->v)), NULL); strbuf_prepend(&b, V(b->cstr+1, 9));
	strbuf_assign(&b, V(b->cstr+5, 30-w->v)); 
	done(w, b);
}
static void o_insert(W* w)
{
	strbuf_t* b = w->v ? mkfix(w, 200) : mk(w, 20);
	strbuf_assign(&b, V(w->t, 25));
	EV(w, strbuf_insert_at_index(&b, 3, PAT[w->v]), NULL); EV(w, strbuf_insert_at_index(&b, -4, V(w->t+5, 12)), NULL);
	EV(w, strbuf_insert_before(&b, V(b->cstr+4, 3), V(w->t, 5)), NULL); EV(w, strbuf_insert_after(&b, V(b->cstr+6, 3), PATU[w->v]), NULL);
	strbuf_insert_at_index(&b, 10, V(b->cstr+5, 12));
	if(w->v) EB(w, b); else done(w, b);
}
static void o_strip(W* w)
{
	strbuf_t* b = mk(w, 0);
	strbuf_assign(&b, T); EV(w, strbuf_strip(&b, DELS[w->v]), NULL); EV(w, strbuf_strip(&b, V(w->t+5, 3)), NULL); strbuf_strip(&b, V(b->cstr+3, 2));
	done(w, b);
}
static void o_cat(W* w)
{
	strbuf_t* b = mk(w, 5);
	strbuf_assign(&b, V(w->t, 9));
	EV(w, strbuf_cat(&b, T, cstr(PAT[w->v]), V(w->t+7, 8)), NULL); EV(w, (strbuf_cat(&b, V(b->cstr+3, 12), cstr(w->v ? "<>" : "[--]"), V(b->cstr, 5))), NULL);
	done(w, b);
	b = mkfix(w, 70);
	EV(w, strbuf_cat(&b, V(w->t, 30), cstr(PATU[w->v])), NULL); EB(w, b);
}
static void o_grow(W* w)
{
	strbuf_t* b = mk(w, 1);
	EV(w, strbuf_grow(&b, 20+w->v*30), NULL); strbuf_append(&b, V(w->t, 10)); EB(w, b); EV(w, strbuf_shrink(&b), NULL); EB(w, b);
	for(int i=0; i<9; i++) strbuf_append_char(&b, '0'+i+w->v);
	EV(w, strbuf_view(&b), NULL);
	done(w, b);
}
static void o_printf(W* w)
{
	strbuf_t* b = mk(w, 2);
	EV(w, strbuf_printf(&b, "%d-%s|%5.2f", 77+w->v, PAT[w->v], 1.5+w->v), NULL); EV(w, strbuf_append_printf(&b, "<%"PRIstr">", PRIstrarg(T)), NULL);
	done(w, b);
	b = mkfix(w, 12); EV(w, strbuf_printf(&b, "%s%s", PAT[w->v], w->v ? "abcdefghij" : "abc"), NULL); EB(w, b);
}
static void o_prnf(W* w)
{
	strbuf_t* b = mk(w, 2);
	EV(w, strbuf_prnf(&b, "%d-%s|", 77+w->v, PAT[w->v]), NULL); EV(w, strbuf_append_prnf(&b, "<%s>", PATU[w->v]), NULL);
	done(w, b);
	b = mkfix(w, 12); EV(w, strbuf_prnf(&b, "%s%s", PAT[w->v], w->v ? "abcdefghij" : "abc"), NULL); EB(w, b);
}
static void o_using(W* w) { strbuf_t* b = mk(w, 20); strbuf_append(&b, V(w->t, 6)); for(int i=0; i<3; i++) EV(w, strbuf_append_using(&b, fetcher, w), NULL); done(w, b); }
static void o_export(W* w)
{
	strbuf_t* b = strbuf_create(T, &w->alc);
	char* s; EB(w, b); s = strbuf_to_cstr(&b); EI(w, b == NULL); E(w, s, w->tn+1); EI(w, w->live);
	b = mkfix(w, 70); strbuf_append(&b, V(w->t, 33)); s = strbuf_to_cstr(&b); EI(w, b == NULL); E(w, s, 34);
}
static void o_heap(W* w)
{
	strbuf_t* b = strbuf_create(cstr(PAT[w->v]), NULL);
	strbuf_append(&b, V(w->t+4, 40)); EI(w, b->size); EI(w, b->capacity); E(w, b->cstr, b->size+1); strbuf_destroy(&b); EI(w, b == NULL);
}
static void o_fixed(W* w)
{
	strbuf_space_t(24) sp = STRBUF_STATIC_INIT(24);
	strbuf_t* b = (strbuf_t*)&sp;
	for(int i=0; i<4; i++) { EV(w, strbuf_append(&b, V(w->t+i, 7+w->v)), NULL); EB(w, b); }
	strbuf_append_char(&b, 'x'+w->v); EB(w, b);
}
#define INT1(ty, txt, opt) do{ ty x_ = 99; strview_t s_ = txt; int e_ = strnum_value(&x_, &s_, opt); EI(w, e_); EI(w, (long long)x_); EI(w, s_.size); }while(0)
static void o_int(W* w)
{
	INT1(short, cstr(DIG[w->v]), 0); INT1(int, cstr(DIG[w->v]), 0); INT1(long long, cstr(DIG[w->v]), STRNUM_NOSIGN);
	INT1(char, cstr(DIG[w->v]), 0); INT1(unsigned char, cstr(w->v ? "255" : "256"), 0);
}
static void o_int_hex(W* w) { INT1(unsigned, cstr(HEX[w->v]), 0); INT1(unsigned long long, cstr(HEX[w->v]), STRNUM_BASE_HEX); INT1(long, cstr(BIN[w->v]), 0); INT1(unsigned short, cstr(BIN[w->v]), STRNUM_BASE_BIN); }
static void o_int_value(W* w) { EI(w, strnum_i8(cstr(DIG[w->v]), -3-w->v, 0)); EI(w, strnum_u64(cstr(HEX[w->v]), 5, 0)); EI(w, strnum_int(cstr("no"), 40+w->v, 0)); }
static void o_float(W* w)
{
	float a = 1; double b = 2; long double c = 3; strview_t s = cstr(FLT[w->v]); double d;
	EI(w, strnum_consume_float(&a, &s, 0)); EI(w, s.size); d = a; E(w, &d, 8);
	s = cstr(FLT[w->v]); EI(w, strnum_consume_double(&b, &s, w->v ? STRNUM_NOEXP : 0)); EI(w, s.size); E(w, &b, 8);
	s = cstr(FLT[w->v]); EI(w, strnum_consume_ldouble(&c, &s, 0)); EI(w, s.size); d = (double)c; E(w, &d, 8);
	d = strnum_double(w->v ? cstr("-inf") : cstr(".5"), 8, 0); E(w, &d, 8);
}
static void o_stream(W* w)
{
	strbuf_t* b = mk(w, 20);
	int fd = FDN(w);
	for(int i=0; i<3; i++) EI(w, strbuf_append_read(&b, fd));
	EB(w, b);
	EI(w, strbuf_write(fd, &b)); EB(w, b);
	strview_t s = V(w->t, 12);
	EI(w, strview_write(fd, &s)); EI(w, strview_write(fd, &s)); EV(w, s, w->t);
	E(w, w->fd.got, w->fd.nout);
	strbuf_destroy(&b); EI(w, w->live);
}
static void o_pack(W* w)
{
	strbuf_t* b = mk(w, 0);
	uint32_t x = 0x12345678u + w->v*0x1111; uint16_t y = 0xBEEF - w->v; int64_t z = -5000000000LL - w->v; uint8_t k = 7+w->v;
	STRBUF_PACK_BE(&b, x); STRBUF_PACK_LE(&b, y); STRBUF_PACK_BE(&b, z); STRBUF_PACK_LE(&b, k);
	EB(w, b);
	strview_t s = strbuf_view(&b);
	x = 0; y = 0; z = 0; k = 0;
	STRVIEW_UNPACK_BE(x, s); STRVIEW_UNPACK_LE(y, s); STRVIEW_UNPACK_BE(z, s); STRVIEW_UNPACK_LE(k, s);
	EI(w, x); EI(w, y); EI(w, z); EI(w, k); EI(w, s.size);
	done(w, b);
}
static void o_encrypt(W* w) { strbuf_t* b = mk(w, 10); strbuf_assign(&b, V(w->t, 13+w->v*5)); EV(w, strbuf_encrypt(&b, w->key, w->iv), NULL); done(w, b); }
static void o_decrypt(W* w) { strbuf_t* b = mk(w, 40); strbuf_assign(&b, V(w->t, w->v ? 32 : 16)); EV(w, strbuf_decrypt(&b, w->key, w->iv), NULL); done(w, b); }
static void o_encrypt_fix(W* w) { strbuf_t* b = mkfix(w, 48); strbuf_assign(&b, V(w->t, 13+w->v*5)); EV(w, strbuf_encrypt(&b, w->key, w->iv), NULL); EB(w, b); }
static void o_decrypt_fix(W* w) { strbuf_t* b = mkfix(w, 48); strbuf_assign(&b, V(w->t, w->v ? 32 : 16)); EV(w, strbuf_decrypt(&b, w->key, w->iv), NULL); EB(w, b); }
static op_t OPS[] = {
	{"match, starts_with, compare", o_match, true}, {"find", o_find, true}, {"find_nocase", o_find_nocase, true}, {"trim, dequote", o_trim, true}, {"split_first_delim", o_first, true},
	{"split_last_delim", o_last, true}, {"split_all", o_all, true}, {"split_line", o_line, true}, {"sub, split_index, split_left, split_right, pop", o_slice, true}, {"strview_to_cstr", o_tocstr, true},
	{"assign, append", o_append, true}, {"prepend", o_prepend, true}, {"insert", o_insert, true}, {"strip", o_strip, true}, {"cat", o_cat, true}, {"grow, shrink, append_char", o_grow, true},
	{"printf", o_printf, true}, {"prnf", o_prnf, true}, {"append_using", o_using, true}, {"strbuf_to_cstr", o_export, true}, {"default allocator", o_heap, true}, {"fixed buffer", o_fixed, true},
	{"integers", o_int}, {"hex and binary", o_int_hex}, {"integers by value", o_int_value}, {"floats", o_float}, {"read, write", o_stream, true}, {"pack, unpack", o_pack},
	{"encrypt", o_encrypt, true, true}, {"decrypt", o_decrypt, true, true},
	{"encrypt, fixed buffer", o_encrypt_fix, true, true}, {"decrypt, fixed buffer", o_decrypt_fix, true, true} };
#define NOPS (int)(sizeof(OPS)/sizeof(*OPS))

//	text and keys of both, v: data set
static char texts[2][80]; static uint8_t keyv[2][48];
static char common[80]; static uint8_t commonkey[48]; static bool same_place;		// both data sets in turn at one address
static void setup(int i, int v, bool shared)
{
	W* w = &w2[i];
	//	only what was used
	__real_memset(w->mem, 0, w->top < MEM-64 ? w->top+64 : MEM);
	w->v = v; w->shared = shared; w->top = 0; w->live = 0; w->n = 0;
	w->alc = (strbuf_allocator_t){ .app_data = w, .allocator = alloc };
	w->t = texts[v]; w->tn = (int)strlen(texts[v]);
	w->key = keyv[v]; w->iv = keyv[v]+32;
	if(same_place)
	{
		__real_memcpy(common, texts[v], 80); __real_memcpy(commonkey, keyv[v], 48);
		w->t = common; w->key = commonkey; w->iv = commonkey+32;
	}
	w->fd.pos = w->fd.nout = 0; w->fd.nin = 13+v;
	for(int k=0; k<14; k++) w->fd.in[k] = (unsigned char)('K'+k*(v+1));
}
//	result of op run alone with a data set, in place i
static unsigned char* ref[NOPS][2]; static int ref_n[NOPS][2]; static long ref_acc[NOPS][2];
static acc_t* ref_set[NOPS][2]; static long ref_nset[NOPS][2];
static void alone(int o, int i, int v)
{
	setup(i, v, false);
	seg_n = 0; recording = true; nacc = 0;
	run(i == 0 ? &OPS[o] : NULL, i == 1 ? &OPS[o] : NULL);
	recording = false;
	if(nacc >= MAXACC) vh_fail("harness: too many accesses");
	if(!ref[o][v])
	{
		ref[o][v] = malloc(w2[i].n+1); ref_n[o][v] = w2[i].n; ref_acc[o][v] = acc;
		memcpy(ref[o][v], w2[i].out, w2[i].n);
		ref_set[o][v] = malloc(sizeof(acc_t)*(nacc+1)); memcpy(ref_set[o][v], accs, sizeof(acc_t)*nacc); ref_nset[o][v] = nacc;
	}
	else VH_CHECK(w2[i].n == ref_n[o][v] && !memcmp(w2[i].out, ref[o][v], ref_n[o][v]), "%s repeated alone gives another result", OPS[o].name);
}
static void check_pair(int a, int b, int va, int vb)
{
	for(int i=0; i<2; i++)
	{
		int o = i ? b : a, v = i ? vb : va;
		if(w2[i].n == ref_n[o][v] && !memcmp(w2[i].out, ref[o][v], ref_n[o][v])) continue;
		int k = 0; while(k < w2[i].n && k < ref_n[o][v] && w2[i].out[k] == ref[o][v][k]) k++;
		vh_fail("%s (%s) gives a result which differs from running it alone, at byte %d of %d: %s, alone %s", OPS[o].name, i ? "second" : "first", k, w2[i].n, vh_q(w2[i].out+k, w2[i].n-k > 40 ? 40 : w2[i].n-k), vh_q(ref[o][v]+k, ref_n[o][v]-k > 40 ? 40 : ref_n[o][v]-k));
	}
	vh->trans++; vh->traces++;
}
static void schedule(int a, int b, bool shared, int n, long s0, long s1, long s2)
{
	int vb = shared ? 0 : 1;
	if(!vh_case()) return;
	VH_DESC("%s || %s, %s, switching after %ld %ld %ld accesses", OPS[a].name, OPS[b].name, shared ? "same source text" : "own texts", s0, s1, s2);
	VH_NONTRIV(1);
	setup(0, 0, shared); setup(1, vb, shared);
	seg[0] = s0; seg[1] = s1; seg[2] = s2; seg_n = n;
	run(&OPS[a], &OPS[b]);
	check_pair(a, b, 0, vb);
	if((unsigned long)n > vh->maxdepth) vh->maxdepth = n;
}
static int by_addr(const void* a, const void* b) { uintptr_t x = ((acc_t*)a)->a, y = ((acc_t*)b)->a; return x < y ? -1 : x > y; }
int main(int argc, char** argv)
{
	vh_init(argc, argv);
	accs = malloc(sizeof(acc_t)*MAXACC);
	for(int v=0; v<2; v++)
	{
		strcpy(texts[v], TEXT[v]);
		for(int i=0; i<48; i++) keyv[v][i] = (uint8_t)(i*7+v*31+1);
		if(strlen(texts[v]) < 60) abort();
	}
	for(int o=0; o<NOPS; o++)
	{
		//	data set 1 first in place 1, as in the schedules; both also in the other place
		alone(o, 0, 0); alone(o, 1, 1); alone(o, 1, 0); alone(o, 0, 1);
	}
	vh_section("every sequence of operations, on data sets which take turns at the same addresses");
	same_place = true;
	for(int n=2; n<=(vh_thorough ? 4 : 3); n++)
	{
		long total = 1; for(int k=0; k<n; k++) total *= NOPS*2;
		for(long q=0; q<total; q++)
		{
			int o[4], v[4]; long x = q; bool skip = false;
			for(int k=0; k<n; k++) { o[k] = (int)(x % NOPS); x /= NOPS; v[k] = x&1; x /= 2; }
			//	from 3 on: the first repeated last, with the same or the other data
			if(n == 3) skip = o[2] != o[0]; else if(n == 4) skip = o[3] != o[0] || o[2] != o[1];
			if(skip || !vh_slice() || !vh_case()) continue;
			VH_DESC("%s (%d); %s (%d); %s (%d)%s", OPS[o[0]].name, v[0], OPS[o[1]].name, v[1], n > 2 ? OPS[o[2]].name : "", n > 2 ? v[2] : 0, n > 3 ? " and the first again" : "");
			VH_NONTRIV(n > 2);
			for(int k=0; k<n; k++)
			{
				setup(0, v[k], false); seg_n = 0;
				run(&OPS[o[k]], NULL);
				VH_CHECK(w2[0].n == ref_n[o[k]][v[k]] && !memcmp(w2[0].out, ref[o[k]][v[k]], w2[0].n), "%s, number %d in the sequence, gives a result which differs from its first run", OPS[o[k]].name, k+1);
				vh->trans++;
			}
			vh->traces++; vh->states++;
			if((unsigned long)n > vh->maxdepth) vh->maxdepth = n;
		}
	}
	same_place = false;
	vh_section("pairs of operations whose memory accesses do not conflict");
	for(int a=0; a<NOPS; a++)
	{
		if(!vh_slice()) continue;
		for(int b=0; b<NOPS; b++)
		{
			//	both sets sorted and merged: a common byte, written by one of them?
			long na = ref_nset[a][0], nb = ref_nset[b][1], conf = 0;
			acc_t* s = malloc(sizeof(acc_t)*(na+nb+1));
			memcpy(s, ref_set[a][0], sizeof(acc_t)*na);
			qsort(s, na, sizeof(acc_t), by_addr);
			uintptr_t* end = malloc(sizeof(uintptr_t)*(na+1));		// highest end of the accesses up to here, and of the writes
			uintptr_t* wend = malloc(sizeof(uintptr_t)*(na+1));
			end[0] = wend[0] = 0;
			for(long i=0; i<na; i++) { uintptr_t e = s[i].a + s[i].n; end[i+1] = e > end[i] ? e : end[i]; wend[i+1] = s[i].w && e > wend[i] ? e : wend[i]; }
			for(long j=0; j<nb; j++)
			{
				acc_t* x = &ref_set[b][1][j];
				long lo = 0, hi = na;
				while(lo < hi) { long m = (lo+hi)/2; if(s[m].a < x->a + x->n) lo = m+1; else hi = m; }
				if(x->w ? end[lo] > x->a : wend[lo] > x->a) conf++;
			}
			free(s); free(end); free(wend);
			if(!conf && vh_case()) { VH_DESC("%s || %s: no conflicting access, so all their interleavings are equivalent", OPS[a].name, OPS[b].name); VH_NONTRIV(1); vh->states += na+nb; }
		}
	}
	vh_section("every schedule with one preemption");
	for(int a=0; a<NOPS; a++) for(int b=0; b<NOPS; b++) for(int sh=0; sh<2; sh++)
	{
		if(!vh_slice()) continue;
		if(sh && !(OPS[a].shared && OPS[b].shared)) continue;
		if(OPS[a].big && !OPS[b].big && !vh_thorough && (b+sh)%6 != 1) continue;
		long n = ref_acc[a][0];
		for(long k=1; k<=n; k++) schedule(a, b, sh, 1, k, 0, 0);
		vh->states += n;
	}
	vh_section("every schedule with two preemptions");
	for(int a=0; a<NOPS; a++) for(int b=0; b<NOPS; b++) for(int sh=0; sh<2; sh++)
	{
		long n = ref_acc[a][0], m = ref_acc[b][sh ? 0 : 1];
		if(sh && !(OPS[a].shared && OPS[b].shared)) continue;
		if(n*m > (vh_thorough ? 600000 : a == b ? 300000 : 12000)) continue;
		for(long k=1; k<=n; k++)
		{
			if(!vh_slice()) continue;
			for(long l=1; l<=m; l++) schedule(a, b, sh, 2, k, l, 0);
		}
	}
	vh_section("every schedule with three preemptions");
	for(int a=0; a<NOPS; a++) for(int b=0; b<NOPS; b++) for(int sh=0; sh<2; sh++)
	{
		long n = ref_acc[a][0], m = ref_acc[b][sh ? 0 : 1];
		if(sh && !(OPS[a].shared && OPS[b].shared)) continue;
		if(n*n*m > (vh_thorough ? 60000000L : a == b ? 2000000 : 200000)) continue;
		for(long k=1; k<n; k++)
		{
			if(!vh_slice()) continue;
			for(long l=1; l<=m; l++) for(long j=1; j<=n-k; j++) schedule(a, b, sh, 3, k, l, j);
		}
	}
	return vh_end();
}
