//	C12 invariants of every buffer after every operation, C13 (-DC13) fixed buffers, C14 (-DC14) capacity, C15 part
#include "bufmodel.h"
#include "strbuf_io.h"
#include "strbuf_crypt.h"
#ifdef C15
//	the C library heap as seen by the code under test (linked with --wrap)
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
static volatile struct { void* p; size_t n; } heap_blk[64]; static volatile int heap_n; static volatile bool heap_on; static volatile unsigned long heap_calls;
static void heap_add(void* p, size_t n) { if(heap_on && p) { if(heap_n == 64) vh_fail("64 live heap blocks"); heap_blk[heap_n].p = p; heap_blk[heap_n++].n = n; } }
static void heap_del(void* p)
{
	if(!heap_on || !p) return;
	for(int i=0; i<heap_n; i++) if(heap_blk[i].p == p) { heap_blk[i] = heap_blk[--heap_n]; return; }
	vh_fail("address which is not a live heap block released or resized");
}
void* __wrap_malloc(size_t n) { heap_calls++; void* p = __real_malloc(n); heap_add(p, n); return p; }
void* __wrap_calloc(size_t a, size_t b) { heap_calls++; void* p = __real_calloc(a, b); heap_add(p, a*b); return p; }
void* __wrap_realloc(void* q, size_t n) { heap_calls++; heap_del(q); void* p = __real_realloc(q, n); heap_add(p, n); return p; }
void __wrap_free(void* p) { heap_calls++; heap_del(p); __real_free(p); }
//	a buffer with an allocator of its own, and a fixed buffer, do not use the heap, not even for a while
#define HEAP_START heap_calls = 0
#define HEAP_UNUSED VH_CHECK(heap_calls == 0, "the C library heap was used %lu times", heap_calls)
#else
#define HEAP_START
#define HEAP_UNUSED
#endif
typedef struct { const m_t* m; } ctx_t;
static void one(const act_t* a, void* c)
{
	const m_t* m = ((ctx_t*)c)->m;
	//	an empty view of itself may or may not count as a view of the buffer: left out of cat for fixed buffers
	if(m->kind == K_FIXED && (a->op == OP_CAT || a->op == OP_VCAT))
		for(int i=0; i<a->n; i++) if(a->s[i].kind == S_INT && !a->s[i].len) return;
	if(!vh_case()) return;
	VH_DESC("%s on %s", a_str(a), m_str(m));
	VH_NONTRIV(1);
	HEAP_START;
	bm_step(m, a);
	HEAP_UNUSED;
}
static src_t W[3000];

//	operations which are not edits of the model: formatted output and fetching. Returns the content expected.
static int fetch_ret, fetch_space; static void* fetch_dst;
static int fetcher(void* dst, int space, void* vars)
{
	fetch_dst = dst; fetch_space = space;
	if(space > 0) memset(dst, 'F', space);	// it may use all of its space, whatever it reports
	return fetch_ret;
}
#define NX 9
static strview_t call_x(strbuf_t** b, int x, int len)
{
	static char txt[140000];
	memset(txt, 'P', len); txt[len] = 0;
	switch(x)
	{
		case 0: return strbuf_printf(b, "%s", txt);
		case 1: return strbuf_append_printf(b, "%s", txt);
		case 2: return strbuf_prnf(b, "%s", txt);
		case 3: return strbuf_append_prnf(b, "%s", txt);
		case 4: fetch_ret = len; return strbuf_append_using(b, fetcher, NULL);
		case 5: fetch_ret = -1-len; return strbuf_append_using(b, fetcher, NULL);
		case 6: { strview_t r = STRVIEW_INVALID; for(int i=0; i<len; i++) r = strbuf_append_char(b, 'P'); return len ? r : strbuf_view(b); }
		case 7: return strbuf_printf(b, "%.*s%c", len, txt, 0);
		default: return strbuf_append_prnf(b, "%c%s", 'P', txt);
	}
}
static void model_x(const m_t* m, int x, int len, m_t* w, bool* valid)
{
	int n = 0, add = len;
	unsigned char ch = 'P';
	w->kind = m->kind; w->cap = m->cap; *valid = true;
	if(x == 1 || x == 3 || x == 4 || x == 5 || x == 6 || x == 8) { memcpy(w->b, m->b, m->size); n = m->size; }
	if(x == 8) add = len+1;
	if(x == 7) add = len+1;
	if(x == 4) { ch = 'F'; if(m->size + len > m->cap) { w->size = 0; *valid = false; return; } }
	if(x == 5) { w->size = 0; *valid = false; return; }
	memset(w->b+n, ch, add);
	if(x == 7) w->b[n+len] = 0;
	n += add;
	if(n > m->cap)
	{
		if(m->kind == K_FIXED)
		{
			//	append_char one at a time: emptied when full, then starts again
			if(x == 6) { int c = m->size; for(int i=0; i<len; i++) c = c == m->cap ? 0 : c+1; n = c; memset(w->b, 'P', n); if(c >= m->size && m->size + len <= m->cap) memcpy(w->b, m->b, m->size); }
			else n = 0;
		}
		else w->cap = -1;	// the rounded up size, even if reached in several steps
	}
	w->size = n;
}
static void step_x(const m_t* m, int x, int len)
{
	static unsigned char wb[M_MAX];
	m_t w = {.b=wb}; bool valid;
	strbuf_t* b = bm_make(m), *was = b;
	model_x(m, x, len, &w, &valid);
	HEAP_START;
	strview_t r = call_x(&b, x, len);
	HEAP_UNUSED;
	act_t a = {.op=OP_VIEW};
	vh->trans++; vh->traces++;
	if(w.cap < 0) w.cap = roundup(w.size);
	unsigned keep = chk;
	if(x == 4 || x == 5) if(chk & F_INV) VH_CHECK(!valid == !r.data, "append_using returned %s", r.data ? "a view" : "an invalid view");
	bm_judge(&b, was, r, m, &a, &w, valid, false);
	chk = keep;
	if((chk & F_ALLOC) && m->kind != K_FIXED) { strbuf_destroy(&b); VH_CHECK(arena_live_count() == 0, "allocation leaked"); }
}
//	fixed buffers stay usable at their full capacity after every failure
static void reuse(const m_t* m, const act_t* a)
{
	strbuf_t* b = bm_make(m);
	static unsigned char t[3000];
	bm_call(&b, a);
	memset(t, 'r', m->cap+1);
	strview_t r = strbuf_assign(&b, (strview_t){(char*)t, m->cap});
	VH_CHECK(b->size == m->cap && b->capacity == m->cap && !memcmp(b->cstr, t, m->cap) && r.size == m->cap && r.data == b->cstr, "%s on %s, then assigning %d characters: size %d capacity %d", a_str(a), m_str(m), m->cap, b->size, b->capacity);
	r = strbuf_append_char(&b, 'x');
	VH_CHECK(b->size == 0 && b->capacity == m->cap && r.data == b->cstr && r.size == 0 && !b->cstr[0], "full fixed buffer of capacity %d: append_char leaves %d characters", m->cap, b->size);
	for(int i=0; i<m->cap; i++) strbuf_append_char(&b, 'k');
	VH_CHECK(b->size == m->cap, "emptied buffer of capacity %d takes only %d characters", m->cap, b->size);
	r = strbuf_assign(&b, STRVIEW_INVALID);
	VH_CHECK(b->size == 0 && !b->cstr[0] && r.data == b->cstr && r.size == 0, "assigning an invalid view left %d characters", b->size);
	vh->trans += 4; vh->traces++;
}
//	the accessories: streams and encryption keep the same invariants
ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t);
static volatile long io_ans;
ssize_t __wrap_read(int fd, void* p, size_t n)
{
	if(fd != 77) return __real_read(fd, p, n);
	long k = io_ans > (long)n ? (long)n : io_ans;
	if(k > 0) memset(p, 'R', k);
	return k;
}
ssize_t __wrap_write(int fd, const void* p, size_t n)
{
	if(fd != 77) return __real_write(fd, p, n);
	return io_ans > (long)n ? (long)n : io_ans;
}
enum { X_READ, X_WRITE, X_ENC, X_DEC, X_ENCDEC, N_ACC };
static void step_acc(const m_t* m, int what, int k)
{
	static const char* const name[] = {"append_read", "write", "encrypt", "decrypt", "encrypt and decrypt"};
	uint8_t key[32], iv[16];
	if(!vh_case()) return;
	VH_DESC("%s %d on %s", name[what], k, m_str(m));
	VH_NONTRIV(1);
	for(int i=0; i<32; i++) { key[i] = i*7; iv[i&15] = i; }
	strbuf_t* b = bm_make(m), *was = b;
	strview_t r = STRVIEW_INVALID;
	int n = m->size, block = (n/16+1)*16, got = -2;
	bool room = m->kind != K_FIXED || block <= m->cap;
	HEAP_START;
	io_ans = k;
	switch(what)
	{
		case X_READ: got = strbuf_append_read(&b, 77); n += k > 0 ? k : 0; break;
		case X_WRITE: got = strbuf_write(77, &b); n -= k > 0 ? k : 0; break;
		case X_ENC: r = strbuf_encrypt(&b, key, iv); n = room ? block : n; break;
		case X_DEC: r = strbuf_decrypt(&b, key, iv); n = -1; break;
		default: strbuf_encrypt(&b, key, iv); if(room) r = strbuf_decrypt(&b, key, iv); break;
	}
	HEAP_UNUSED;
	vh->trans++; vh->traces++;
	VH_CHECK(b != NULL, "%s %d on %s: buffer pointer NULL", name[what], k, m_str(m));
	VH_CHECK(b->size >= 0 && b->size <= b->capacity, "%s %d on %s: size %d capacity %d", name[what], k, m_str(m), b->size, b->capacity);
	VH_CHECK(b->cstr[b->size] == 0, "%s %d on %s: content of %d is not terminated", name[what], k, m_str(m), b->size);
	VH_CHECK(n < 0 || b->size == n, "%s %d on %s: size %d, expected %d", name[what], k, m_str(m), b->size, n);
	if(what <= X_WRITE) VH_CHECK(got == k, "%s %d on %s: returned %d", name[what], k, m_str(m), got);
	if(r.data) VH_CHECK(r.data == b->cstr && r.size == b->size, "%s on %s: the returned view is not the content of the buffer", name[what], m_str(m));
	if(m->kind == K_FIXED)
		VH_CHECK(b == was && !b->allocator.allocator && !b->allocator.app_data && b->capacity == m->cap, "%s %d on %s: fixed buffer moved, resized or got an allocator", name[what], k, m_str(m));
	else
	{
		VH_CHECK(b->allocator.allocator == arena_alloc && b->allocator.app_data == arena_app(), "%s %d on %s: allocator changed", name[what], k, m_str(m));
		VH_CHECK(arena_live_count() == 1 && arena_size(b) >= (long)sizeof(strbuf_t) + b->capacity + 1, "%s %d on %s: %d allocations, of %ld bytes for a capacity of %d", name[what], k, m_str(m), arena_live_count(), arena_size(b), b->capacity);
		bool grows = (what == X_ENC || what == X_ENCDEC) && block > m->cap;
		VH_CHECK(grows ? b->capacity >= block : b->capacity == m->cap, "%s %d on %s: capacity became %d", name[what], k, m_str(m), b->capacity);
		strbuf_destroy(&b);
		VH_CHECK(!b && arena_live_count() == 0, "%s %d on %s, then destroy: allocation leaked", name[what], k, m_str(m));
	}
}
static void set_m(const m_t* m, void* c) { ((ctx_t*)c)->m = m; vh->states++; }
int main(int argc, char** argv)
{
	int n, kind, cap, k, L, C, k0 = 0, k1 = NB_KINDS;
	static unsigned char t[6000];
	vh_init(argc, argv);
	bm_init(70000, 140000);
	chk = PROPCHK;
#ifdef C13
	k1 = 1;
#endif
	unsigned mask = OPALL;
	L = vh_thorough ? 6 : 4; C = vh_thorough ? 12 : 8;
	vh_section("every action in every short state, sources outside and inside the buffer");
	for(kind=k0; kind<k1; kind++) for(n=0; n<=L; n++) for(cap=n; cap<=C; cap++)
	{
		if(!vh_slice()) continue;
		for(k=0; k<n; k++) t[k] = k == 1 ? 0 : 'A'+k;
		m_t m = {kind, cap, n, t};
		ctx_t c = {&m};
		int nw = own_windows(&m, W, true);
		for(k=0; k<=C+2-n || k < 3; k++) W[nw++] = (src_t){S_EXT, 0, k, (unsigned char*)"0A23456789abcdefghijklmn"};
		W[nw++] = (src_t){S_CSTR, 0, 3, (unsigned char*)"CBX"};
		W[nw++] = (src_t){S_INVALID};
		vh->states++;
		each_action(&m, W, nw, mask, false, one, &c);
		for(int x=0; x<NX; x++) for(k=0; k<C+4; k++)
		{
			if(!vh_case()) continue;
			VH_DESC("formatted or fetched output %d of %d characters on %s", x, k, m_str(&m));
			step_x(&m, x, k);
		}
	}
	vh_section("accessories: every answer of read and write, encryption, decryption");
	for(kind=k0; kind<k1; kind++) for(n=0; n<=(vh_thorough ? 100 : 50); n++) for(k=0; k<8; k++)
	{
		static const int extra[] = {0, 1, 2, 5, -1, -2, -3, 40};
		int block = (n/16+1)*16;
		cap = extra[k] >= 0 ? n + extra[k] : block + extra[k] + 2;
		if(!vh_slice() || cap < n) continue;
		for(int i=0; i<n; i++) t[i] = (unsigned char)(i*37+n);
		m_t m = {kind, cap, n, t};
		vh->states++;
		for(int i=-1; i<=cap-n; i++) step_acc(&m, X_READ, i);
		for(int i=-1; i<=n; i++) step_acc(&m, X_WRITE, i);
		step_acc(&m, X_ENC, 0); step_acc(&m, X_DEC, 0); step_acc(&m, X_ENCDEC, 0);
	}
	vh_section("cat of up to 16 views");
	{ ctx_t c; cat_many(true, k1, one, set_m, &c); }
	vh_section("lengths around powers of two: exactly fitting, one less, one more");
	static const int len[] = {0,1,15,16,17,31,32,33,47,48,49,63,64,65,127,128,129,255,256,257,511,512,513,1023,1024,1025,2047,2048};
	int NL = sizeof(len)/sizeof(*len);
	for(k=0; k<6000; k++) t[k] = (unsigned char)(k*37 + k/256);
	for(int i=0; i<NL; i++) for(int j=0; j<NL; j++)
	{
		if(!vh_slice()) continue;
		for(kind=k0; kind<k1; kind++) for(int ci=0; ci<6; ci++)
		{
			cap = ci == 0 ? len[i] : ci == 1 ? len[i]+len[j] : ci == 2 ? len[i]+len[j]-1 : ci == 3 ? len[i]+len[j]+1 : ci == 4 ? 2*len[j]-1 : 2*len[j];
			if(cap < len[i]) continue;
			m_t m = {kind, cap, len[i], t};
			ctx_t c = {&m};
			src_t s = {S_EXT, 0, len[j], t+50};
			act_t a[] = { {.op=OP_ASSIGN,.n=1,.s={s}}, {.op=OP_APPEND,.n=1,.s={s}}, {.op=OP_PREPEND,.n=1,.s={s}}, {.op=OP_INSERT,.idx=len[i]/2,.n=1,.s={s}},
				{.op=OP_BEFORE,.doff=len[i]/3,.dlen=len[i]/4,.n=1,.s={s}}, {.op=OP_AFTER,.doff=len[i]/3,.dlen=len[i]/4,.n=1,.s={s}}, {.op=OP_STRIP,.n=1,.s={s}}, {.op=OP_CAT,.n=2,.s={s,s}}, {.op=OP_CAT,.n=1,.s={s}},
				{.op=OP_GROW,.idx=len[j]}, {.op=OP_GROW,.idx=cap+1}, {.op=OP_SHRINK}, {.op=OP_CHAR,.idx=200}, {.op=OP_APPEND,.n=1,.s={{S_INT,0,len[i]}}}, {.op=OP_CAT,.n=2,.s={{S_INT,0,len[i]},s}}, {.op=OP_ASSIGN,.n=1,.s={{S_INVALID}}} };
			vh->states++;
			for(k=0; k<(int)(sizeof(a)/sizeof(*a)); k++)
			{
				if(kind == K_FIXED && a[k].op == OP_CAT && a[k].s[0].kind == S_INT && !len[i]) continue;
				one(&a[k], &c);
			}
			for(int x=0; x<NX; x++)
			{
				if(!vh_case()) continue;
				VH_DESC("formatted or fetched output %d of %d characters on %s", x, len[j], m_str(&m));
				step_x(&m, x, len[j]);
			}
		}
	}
	vh_section("lengths beyond 16 bits");
	static unsigned char hb[70000];
	for(k=0; k<70000; k++) hb[k] = (unsigned char)(k*37 + k/256);
	static const int H[] = {0,5,4096,32767,32768,65535,65536,65537};
	for(int i=0; i<8; i++) for(int j=0; j<8; j++)
	{
		if(!vh_slice()) continue;
		if(i < 3 && j < 3) continue;
		for(kind=k0; kind<k1; kind++) for(int ci=0; ci<3; ci++)
		{
			cap = ci == 0 ? H[i] : ci == 1 ? H[i]+H[j] : H[i]+H[j]-1;
			if(cap < H[i]) continue;
			m_t m = {kind, cap, H[i], hb};
			ctx_t c = {&m};
			src_t s = {S_EXT, 0, H[j], hb+50}, few = {S_EXT, 0, j, hb+50};
			act_t a[] = { {.op=OP_ASSIGN,.n=1,.s={s}}, {.op=OP_APPEND,.n=1,.s={s}}, {.op=OP_PREPEND,.n=1,.s={s}}, {.op=OP_INSERT,.idx=H[i]/2,.n=1,.s={s}},
				{.op=OP_BEFORE,.doff=H[i]/3,.dlen=H[i]/4,.n=1,.s={s}}, {.op=OP_AFTER,.doff=H[i]/3,.dlen=H[i]/4,.n=1,.s={s}}, {.op=OP_STRIP,.n=1,.s={few}}, {.op=OP_CAT,.n=2,.s={s,few}}, {.op=OP_CAT,.n=1,.s={s}},
				{.op=OP_GROW,.idx=H[j]}, {.op=OP_GROW,.idx=cap+1}, {.op=OP_SHRINK}, {.op=OP_CHAR,.idx=200}, {.op=OP_APPEND,.n=1,.s={{S_INT,0,H[i]}}} };
			vh->states++;
			for(k=0; k<(int)(sizeof(a)/sizeof(*a)); k++) one(&a[k], &c);
			for(int x=0; x<NX; x++)
			{
				if(x == 6 || (kind && (x == 2 || x == 3 || x == 8)) || !vh_case()) continue;		// one character at a time
				VH_DESC("formatted or fetched output %d of %d characters on %s", x, H[j], m_str(&m));
				step_x(&m, x, H[j]);
			}
		}
	}
#ifdef C13
	vh_section("usable after being emptied");
	for(cap=0; cap<=(vh_thorough ? 300 : 70); cap++)
	{
		if(!vh_slice()) continue;
		for(n=0; n<=cap; n+=1+(cap>10)*7)
		{
			m_t m = {K_FIXED, cap, n, t};
			for(k=0; k<8; k++)
			{
				src_t s = {S_EXT, 0, cap+1-(k>3?0:n), t+60};
				static const int ops[] = {OP_APPEND,OP_PREPEND,OP_INSERT,OP_AFTER,OP_ASSIGN,OP_CAT,OP_ASSIGN,OP_CHAR};
				act_t a = {.op=ops[k], .n=k==7?0:1, .s={s}, .idx=n/2};
				if(k == 6) a.s[0] = (src_t){S_INVALID};
				if(!vh_case()) continue;
				VH_DESC("reuse after %s on %s", a_str(&a), m_str(&m));
				VH_NONTRIV(1);
				reuse(&m, &a);
			}
		}
	}
#endif
#ifdef C14
	vh_section("growth: every size from every capacity");
	for(cap=0; cap<=(vh_thorough ? 200 : 70); cap++)
	{
		if(!vh_slice()) continue;
		for(n=0; n<=cap; n+=1+(cap>20)*5) for(k=0; k<=100; k++)
		{
			m_t m = {K_MOVE + (k&1), cap, n, t};
			ctx_t c = {&m};
			src_t s = {S_EXT, 0, k, t+60};
			act_t a[] = { {.op=OP_APPEND,.n=1,.s={s}}, {.op=OP_ASSIGN,.n=1,.s={s}}, {.op=OP_GROW,.idx=k}, {.op=OP_CAT,.n=1,.s={s}}, {.op=OP_CHAR,.idx='c'}, {.op=OP_SHRINK} };
			for(int q=0; q<6; q++) one(&a[q], &c);
		}
	}
	vh_section("creation");
	for(n=0; n<=600; n++)
	{
		if(!vh_slice()) continue;
		if(!vh_case()) continue;
		VH_DESC("create with %d", n);
		arena_reset(false);
		strbuf_t* b = strbuf_create_empty(n, arena_allocator());
		VH_CHECK(b && b->capacity >= n && b->size == 0, "create_empty(%d): capacity %d", n, b->capacity);
		strbuf_shrink(&b);
		VH_CHECK(b->capacity == 0, "shrink of an empty buffer: capacity %d", b->capacity);
		b = strbuf_create_init((strview_t){(char*)t, n}, arena_allocator());
		VH_CHECK(b && b->capacity >= n && b->size == n, "create_init(%d): capacity %d size %d", n, b->capacity, b->size);
		strbuf_append_char(&b, 'z');
		strbuf_shrink(&b);
		VH_CHECK(b->capacity == n+1 && b->size == n+1, "shrink of %d characters: capacity %d", n+1, b->capacity);
		vh->trans += 4; vh->states++;
	}
	vh_section("every history of grow, shrink, append, assign, char, strip");
	for(int a0=0; a0<9; a0++) for(kind=k0; kind<k1; kind++)
	{
		int D = vh_thorough ? 7 : 6, s[8] = {0};
		if(!vh_slice()) continue;
		do
		{
			static unsigned char cur[M_MAX];
			m_t m = {kind, 5, 0, cur}, w = {.b=bm_w};
			bool valid, mincap;
			if(!vh_case()) continue;
			VH_DESC("capacity history %d %d %d %d %d %d", a0, s[0], s[1], s[2], s[3], s[4]);
			strbuf_t* b = bm_make(&m), *was;
			for(int i=0; i<D; i++)
			{
				src_t e = {S_EXT,0,5,t+3}, e17 = {S_EXT,0,17,t+9};
				act_t h[] = { {.op=OP_GROW,.idx=17}, {.op=OP_GROW,.idx=3}, {.op=OP_SHRINK}, {.op=OP_APPEND,.n=1,.s={e}}, {.op=OP_ASSIGN,.n=1,.s={e17}}, {.op=OP_ASSIGN,.n=1,.s={{S_INVALID}}}, {.op=OP_CHAR,.idx='c'}, {.op=OP_CAT,.n=2,.s={{S_INT,0,m.size},e}}, {.op=OP_GROW,.idx=b->capacity+1} };
				act_t* a = &h[i ? s[i-1] : a0];
				if(kind == K_FIXED && a->op == OP_CAT && !m.size) a->n = 0, a->op = OP_VCAT;
				m_apply(&m, a, &w, &valid, &mincap);
				was = b;
				strview_t r = bm_call(&b, a);
				vh->trans++;
				bm_judge(&b, was, r, &m, a, &w, valid, mincap);
				memcpy(cur, w.b, w.size); m.size = w.size; m.cap = b->capacity;
			}
			vh->traces++;
			if((unsigned long)D > vh->maxdepth) vh->maxdepth = D;
		}while(vh_next(s, D-1, 9));
	}
#endif
#ifdef C15
	vh_section("to_cstr and destroy from every state");
	for(kind=k0; kind<k1; kind++) for(n=0; n<=(vh_thorough ? 300 : 140); n++)
	{
		if(!vh_slice()) continue;
		for(cap=n; cap<=n+40; cap+=1+(cap>n+3)*7) for(int d=0; d<3; d++)
		{
			m_t m = {kind, cap, n, t};
			if(!vh_case()) continue;
			VH_DESC("%s of %s", d ? "destroy" : "to_cstr", m_str(&m));
			VH_NONTRIV(1);
			HEAP_START;
			strbuf_t* b = bm_make(&m), *was = b;
			vh->states++; vh->trans++; vh->traces++;
			if(d == 2) { strbuf_grow(&b, cap+20); strbuf_shrink(&b); strbuf_grow(&b, cap+1); was = b; }
			if(d)
			{
				strbuf_destroy(&b);
				VH_CHECK(b == NULL, "destroy did not NULL the pointer");
				VH_CHECK(kind == K_FIXED || arena_live_count() == 0, "destroy leaked %d allocations", arena_live_count());
				if(kind == K_FIXED) VH_CHECK(was->capacity == cap && was->size == n, "destroy changed the fixed buffer");
				strbuf_destroy(&b);
			}
			else
			{
				char* s = strbuf_to_cstr(&b);
				VH_CHECK(b == NULL, "to_cstr did not NULL the pointer");
				VH_CHECK(s && !memcmp(s, t, n) && !s[n], "to_cstr gave %s, expected %s terminated", s ? vh_q(s, n+1) : "NULL", vh_q(t, n));
				if(kind == K_FIXED) VH_CHECK(s == was->cstr, "to_cstr of a fixed buffer is not its own storage");
				else
				{
					VH_CHECK(arena_live_count() == 1, "to_cstr left %d live allocations", arena_live_count());
					VH_CHECK(arena_size(s) == n+1, "to_cstr result is an allocation of %ld bytes, expected %d", arena_size(s), n+1);
					arena_alloc(arena_allocator(), s, 0);
				}
			}
			HEAP_UNUSED;
		}
	}
	vh_section("two buffers with different allocators, each used on the other");
	for(int f0=0; f0<10; f0++) for(int ka=0; ka<3; ka++) for(int kb=1; kb<3; kb++)
	{
		int D = vh_thorough ? 5 : 4, s[8] = {0};
		if(!vh_slice()) continue;
		do
		{
			if(!vh_case()) continue;
			VH_DESC("two buffers, ops %d %d %d %d", f0, s[0], s[1], s[2]);
			VH_NONTRIV(1);
			m_t mf = {K_FIXED, 30, 0, t};
			arena_reset(kb == 2);
			HEAP_START;
			strbuf_t* b[2];
			b[0] = ka ? strbuf_create_init(cstr("first"), arena_allocator_n(1)) : bm_make(&mf);
			b[1] = strbuf_create_init(cstr("the second buffer"), arena_allocator_n(2));
			memset(&arena_alc, 0, sizeof(arena_alc));
			for(int i=0; i<D; i++)
			{
				strbuf_t** x = &b[i&1], **y = &b[~i&1];
				switch(i ? s[i-1] : f0)
				{
					case 0: strbuf_append(x, strbuf_view(y)); break;
					case 1: strbuf_assign(x, strview_sub(strbuf_view(y), 1, -1)); break;
					case 2: strbuf_cat(x, strbuf_view(y), strbuf_view(x), strbuf_view(y)); break;
					case 3: strbuf_insert_at_index(x, 2, strbuf_view(y)); break;
					case 4: strbuf_shrink(x); break;
					case 5: strbuf_grow(x, 100); break;
					case 6: strbuf_printf(x, "%"PRIstr"+%d", PRIstrarg(strbuf_view(y)), i); break;
					case 7: strbuf_append_prnf(x, "%s", (*y)->cstr); break;
					case 8: strbuf_prepend(x, strbuf_view(x)); break;
					default: strbuf_destroy(x); *x = strbuf_create_empty(3, arena_allocator_n(1 + (~i&1))); break;
				}
				vh->trans++;
				for(int q=0; q<2; q++)
					if(b[q]->allocator.allocator)
						VH_CHECK(arena_size(b[q]) >= (long)sizeof(strbuf_t) + b[q]->capacity + 1, "step %d: allocation of %ld bytes for a capacity of %d", i, arena_size(b[q]), b[q]->capacity);
				if(arena_live_count() != !!b[0]->allocator.allocator + !!b[1]->allocator.allocator) vh_fail("step %d: %d live allocations", i, arena_live_count());
			}
			strbuf_destroy(&b[0]); strbuf_destroy(&b[1]);
			HEAP_UNUSED;
			VH_CHECK(!b[0] && !b[1] && arena_live_count() == 0, "%d allocations leaked", arena_live_count());
			vh->traces++;
		}while(vh_next(s, D-1, 10));
	}
	vh_section("creation");
	for(n=0; n<=300; n++)
	{
		if(!vh_slice()) continue;
		if(!vh_case()) continue;
		VH_DESC("creation with %d", n);
		VH_NONTRIV(1);
		for(int q=0; q<3; q++)
		{
			arena_reset(false);
			strbuf_t* b = q == 0 ? strbuf_create_empty(n, arena_allocator()) : q == 1 ? strbuf_create_init((strview_t){(char*)t, n}, arena_allocator()) : strbuf_create(STRVIEW_INVALID, arena_allocator());
			memset(&arena_alc, 0, sizeof(arena_alc));
			VH_CHECK(b && arena_live_count() == 1 && arena_size(b) >= (long)sizeof(strbuf_t) + b->capacity + 1, "creation %d with %d: %d live allocations, %ld bytes", q, n, arena_live_count(), arena_size(b));
			strbuf_append_char(&b, 'x');
			strbuf_destroy(&b);
			VH_CHECK(!b && arena_live_count() == 0, "leak");
		}
		//	an allocator structure without a function
		strbuf_allocator_t none = {0};
		VH_CHECK(!strbuf_create_empty(n, &none), "create_empty without an allocator is not NULL");
		VH_CHECK(!strbuf_create_init((strview_t){(char*)t, n}, &none), "create_init without an allocator is not NULL");
#ifndef STRBUF_DEFAULT_ALLOCATOR_STDLIB
		VH_CHECK(!strbuf_create_empty(n, NULL), "create_empty without an allocator is not NULL");
		VH_CHECK(!strbuf_create_init((strview_t){(char*)t, n}, NULL), "create_init without an allocator is not NULL");
#endif
	}
#ifdef STRBUF_DEFAULT_ALLOCATOR_STDLIB
	vh_section("default allocator: histories of the C library heap");
	for(int f0=0; f0<10; f0++)
	{
		int D = vh_thorough ? 5 : 4, s[8] = {0};
		if(!vh_slice()) continue;
		do for(int e=0; e<2; e++)
		{
			if(!vh_case()) continue;
			VH_DESC("default allocator, ops %d %d %d %d", f0, s[0], s[1], s[2]);
			VH_NONTRIV(1);
			heap_n = 0; heap_on = true;
			strbuf_t* b = s[0]&1 ? strbuf_create_empty(2, NULL) : strbuf_create_init(cstr("text"), NULL);
			for(int i=0; i<D; i++)
			{
				switch(i ? s[i-1] : f0)
				{
					case 0: strbuf_append(&b, "some more text"); break;
					case 1: strbuf_assign(&b, cstr("ab")); break;
					case 2: strbuf_cat(&b, cstr("x"), strbuf_view(&b), strbuf_view(&b)); break;
					case 3: strbuf_insert_at_index(&b, 2, strbuf_view(&b)); break;
					case 4: strbuf_shrink(&b); break;
					case 5: strbuf_grow(&b, 100); break;
					case 6: strbuf_append_char(&b, 'x'); break;
					case 7: strbuf_append_prnf(&b, "%s", "prnf text"); break;
					case 8: strbuf_strip(&b, "xt"); break;
					default: strbuf_destroy(&b); b = strbuf_create(3, NULL); break;
				}
				vh->trans++;
				VH_CHECK(heap_n == 1 && heap_blk[0].p == b && heap_blk[0].n >= sizeof(strbuf_t) + b->capacity + 1, "step %d: %d live heap blocks", i, heap_n);
			}
			if(e)
			{
				int size = b->size;
				char* c = strbuf_to_cstr(&b);
				VH_CHECK(!b && c && (int)strlen(c) == size && heap_n == 1 && heap_blk[0].p == c && (int)heap_blk[0].n == size+1, "to_cstr: %d live heap blocks", heap_n);
				free(c);
			}
			else strbuf_destroy(&b);
			VH_CHECK(!b && heap_n == 0, "%d heap blocks leaked", heap_n);
			heap_on = false;
			vh->traces++;
		}while(vh_next(s, D-1, 10));
	}
#endif
#endif
	return vh_end();
}
