/*
	C17 sizes around INT_MAX.
	The buffers lie in reserved address space whose untouched pages read as zero, so contents of any size can be set up by
	their size alone. The allocator only records what it is asked for.
*/
#include "vh.h"
#include "strbuf.h"
#define REGION ((long)INT_MAX + (2L<<20))
typedef struct { unsigned char* base; long size; bool live; } reg_t;
static reg_t reg[3];
static unsigned char* zeros;			// a source text of INT_MAX bytes
static int n_alloc; static size_t last_req; static size_t bad_req;
static int app;
static void set_limit(reg_t* r, size_t size)
{
	long pg = ((long)size + 4095) & ~4095L;
	mprotect(r->base, REGION, PROT_NONE);
	mprotect(r->base, pg, PROT_READ|PROT_WRITE);
	r->size = size;
}
static void* rec_alloc(struct strbuf_allocator_t* self, void* ptr, size_t size)
{
	int i;
	n_alloc++;
	last_req = size;
	VH_CHECK(self->app_data == &app, "wrong app_data");
	if(ptr)
	{
		for(i=0; i<3 && !(reg[i].live && reg[i].base == ptr); i++);
		VH_CHECK(i < 3, "allocator given an address which is not a live allocation");
	}
	else if(size)
	{
		for(i=0; i<3 && reg[i].live; i++);
		if(i == 3) vh_fail("more than 3 live allocations");
	}
	else vh_fail("allocator asked to free NULL");
	if(!size) { reg[i].live = false; return NULL; }
	if(size > sizeof(strbuf_t) + (size_t)INT_MAX + 1) vh_fail("allocator asked for %zu bytes, more than any buffer may need", size);
	if(size < sizeof(strbuf_t) + 1) vh_fail("allocator asked for only %zu bytes", size);
	set_limit(&reg[i], size);
	reg[i].live = true;
	return reg[i].base;
}
//	large copies between different blocks (linked with --wrap): pages which were never touched are zero and need not be copied
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t);
static void sparse_copy(unsigned char* d, const unsigned char* s, size_t n)
{
	static unsigned char vec[(REGION >> 12) + 2];
	volatile unsigned char touch = s[n-1];
	const unsigned char* s0 = (const unsigned char*)((uintptr_t)s & ~4095ul);
	unsigned char* d1 = (unsigned char*)(((uintptr_t)d + 4095) & ~4095ul), *d2 = (unsigned char*)((uintptr_t)(d + n) & ~4095ul);
	size_t np = ((size_t)(s + n - s0) + 4095) >> 12;
	*(volatile unsigned char*)d = s[0]; *(volatile unsigned char*)(d + n - 1) = touch;
	if(mincore((void*)s0, np << 12, vec)) { __real_memmove(d, s, n); return; }
	madvise(d1, d2 - d1, MADV_DONTNEED);
	memset(d, 0, d1 - d); memset(d2, 0, d + n - d2);
	for(size_t i=0; i<np; i++)
	{
		if(!(vec[i] & 1)) continue;
		const unsigned char* a = s0 + (i << 12), *e = a + 4096;
		if(a < s) a = s;
		if(e > s + n) e = s + n;
		for(const unsigned char* z = a; z < e; z++) if(*z) { __real_memcpy(d + (a - s), a, e - a); break; }
	}
}
static bool is_sparse(const unsigned char* d, const unsigned char* s, size_t n)
{
	if(n < 1u<<20 || n > (size_t)INT_MAX + 4096 || (d < s + n && s < d + n)) return false;
	bool in = false;
	for(int i=0; i<3; i++) in |= d >= reg[i].base && d + n <= reg[i].base + REGION;
	return in;
}
#define WRAP(f) void* __real_##f(void*, const void*, size_t); void* __wrap_##f(void* d, const void* s, size_t n) { if(!is_sparse(d, s, n)) return __real_##f(d, s, n); sparse_copy(d, s, n); return d; }
WRAP(memcpy) WRAP(memmove)
#ifdef __clang__
	#if __has_feature(memory_sanitizer)
		WRAP(__msan_memcpy) WRAP(__msan_memmove)
	#elif __has_feature(address_sanitizer)
		WRAP(__asan_memcpy) WRAP(__asan_memmove)
	#endif
#endif
static long blk_size(const strbuf_t* b) { for(int i=0; i<3; i++) if(reg[i].live && (const void*)reg[i].base == (const void*)b) return reg[i].size; return -1; }
static strbuf_allocator_t alc = { .app_data=&app, .allocator=rec_alloc };
static void fresh(void)
{
	for(int i=0; i<3; i++)
	{
		reg[i].live = false;
		madvise(reg[i].base, REGION, MADV_DONTNEED);
	}
}
//	dyn: dynamic, else fixed
static strbuf_t* make(bool dyn, int cap, int size)
{
	strbuf_t* b;
	fresh();
	if(dyn)
		b = strbuf_create_empty(cap, &alc);
	else
	{
		set_limit(&reg[2], sizeof(strbuf_t) + (size_t)cap + 1);
		b = strbuf_create_fixed(reg[2].base, sizeof(strbuf_t) + (size_t)cap + 1);
	}
	if(!b || b->capacity < cap) vh_fail("%s buffer of capacity %d: %s", dyn ? "dynamic" : "fixed", cap, b ? "less capacity" : "not created");
	b->size = size;
	//	recognisable ends of the content, and no terminator beyond the first
	for(int i=1; i<=40 && i<=size; i++) b->cstr[size-i] = 'a' + i%26;
	for(int i=0; i<40 && i<size-40; i++) b->cstr[i] = 'A' + i%26;
	for(int i=1; i<=40 && (long)size+i < cap; i++) b->cstr[size+i] = 'j';
	n_alloc = 0;
	return b;
}
enum { APPEND, PREPEND, INS0, INS_END, INS_M3, INS_BIG, BEFORE, AFTER, CAT1, CAT2, CAT3, CAT5, VCAT2, CHAR, ASSIGN, NOP };
static const char* nm[] = {"append","prepend","insert at 0","insert at the end","insert at -3","insert at INT_MAX","insert_before","insert_after","cat of one","cat of two","cat of three","cat of five","vcat of two","append_char","assign"};
static strview_t vc(strbuf_t** b, int n, ...) { va_list va; va_start(va, n); strview_t r = strbuf_vcat(b, n, va); va_end(va); return r; }
//	the size of the result, -1 if the step is not cheap enough to execute
static long result(int op, long a, long s, long* work)
{
	*work = s;
	switch(op)
	{
		case APPEND: case INS_END: case AFTER: case INS_BIG: return a+s;
		case INS_M3: *work += 3; return a+s;
		case PREPEND: case INS0: case BEFORE: *work += s ? a : 0; return a+s;
		case CAT1: case ASSIGN: return s;
		case CAT2: case VCAT2: *work = 2*s; return 2*s;
		case CAT3: *work = 2*s+1; return 2*s+1;
		case CAT5: *work = 4*s+7; return 4*s+7;
		default: *work = 1; return a+1;
	}
}
static void step(bool dyn, int cap, int a, int op, int s)
{
	long work, want = result(op, a, s, &work);
	int limit = dyn ? INT_MAX : cap;
	if(want <= limit && work > (vh_thorough ? 1L<<27 : 1L<<16)) return;
	strbuf_t* b = make(dyn, cap, a), *was = b;
	strview_t v = {(char*)zeros, s}, t = {"1234567", 7}, o = {"x", 1}, r;
	cap = b->capacity;
	switch(op)
	{
		case APPEND: r = strbuf_append(&b, v); break;
		case PREPEND: r = strbuf_prepend(&b, v); break;
		case INS0: r = strbuf_insert_at_index(&b, 0, v); break;
		case INS_END: r = strbuf_insert_at_index(&b, a, v); break;
		case INS_M3: r = strbuf_insert_at_index(&b, -3, v); break;
		case INS_BIG: r = strbuf_insert_at_index(&b, INT_MAX, v); break;
		case BEFORE: r = strbuf_insert_before(&b, ((strview_t){b->cstr, a/2}), v); break;
		case AFTER: r = strbuf_insert_after(&b, ((strview_t){b->cstr+a/2, a-a/2}), v); break;
		case CAT1: r = strbuf_cat(&b, v); break;
		case CAT2: r = strbuf_cat(&b, v, v); break;
		case CAT3: r = strbuf_cat(&b, v, o, v); break;
		case CAT5: r = strbuf_cat(&b, v, v, t, v, v); break;
		case VCAT2: r = vc(&b, 2, v, v); break;
		case CHAR: r = strbuf_append_char(&b, '!'); break;
		default: r = strbuf_assign(&b, v); break;
	}
	vh->trans++;
	VH_CHECK(b != NULL, "buffer pointer NULL");
	if(want > limit)
	{
		VH_CHECK(b->size == 0, "%s of %d to %d: result of %ld leaves %d bytes, expected an empty buffer", nm[op], s, a, want, b->size);
		VH_CHECK(b->cstr[0] == 0, "%s of %d to %d: emptied buffer not terminated", nm[op], s, a);
		if(!dyn) VH_CHECK(b == was && b->capacity == cap && n_alloc == 0, "%s of %d to %d: fixed buffer changed", nm[op], s, a);
	}
	else
	{
		VH_CHECK(b->size == want, "%s of %d to %d: %d bytes, expected %ld", nm[op], s, a, b->size, want);
		VH_CHECK(b->cstr[b->size] == 0, "%s of %d to %d: not terminated", nm[op], s, a);
	}
	VH_CHECK(b->capacity >= b->size, "%s of %d to %d: size %d capacity %d", nm[op], s, a, b->size, b->capacity);
	VH_CHECK(r.data == b->cstr && r.size == b->size, "%s of %d to %d: returned view is not the content", nm[op], s, a);
	if(dyn)
	{
		VH_CHECK(blk_size(b) >= (long)sizeof(strbuf_t) + b->capacity + 1, "%s of %d to %d: allocation of %ld bytes for a capacity of %d", nm[op], s, a, blk_size(b), b->capacity);
	}
	if(want <= limit && want && op != CAT1 && op != CAT2 && op != CAT3 && op != CAT5 && op != VCAT2 && op != ASSIGN)
	{
		//	the ends of the old content are where they should be
		long p = op == PREPEND || op == INS0 || op == BEFORE ? s : 0;
		if(a > 100) for(int i=0; i<40; i++) VH_CHECK(b->cstr[p+i] == 'A' + i%26, "%s of %d to %d: start of the content changed", nm[op], s, a);
		long q = op == INS_M3 ? want : op == APPEND || op == INS_END || op == AFTER || op == INS_BIG ? a : op == CHAR ? a : want;
		int from = 1;
		for(int i=from; i<=(op == INS_M3 ? 3 : 40) && i<=a; i++) VH_CHECK(b->cstr[q-i] == (a > 100 || i > a-40 ? 'a' + i%26 : b->cstr[q-i]), "%s of %d to %d: end of the content changed", nm[op], s, a);
		if(op == CHAR) VH_CHECK(b->cstr[a] == '!', "character not appended");
	}
	//	and the buffer is still usable
	strbuf_assign(&b, cstr("usable"));
	if(b->capacity >= 6) VH_CHECK(b->size == 6 && !memcmp(b->cstr, "usable", 7), "%s of %d to %d: buffer not usable afterwards", nm[op], s, a);
	vh->traces++;
}
static int fetch_ans, fetch_n, fetch_space; static void* fetch_at;
static int fetch(void* dst, int space, void* v) { (void)v; fetch_n++; fetch_space = space; fetch_at = dst; return fetch_ans; }
int main(int argc, char** argv)
{
	static const int sz[] = {0, 1, 2, 7, 16, 17, 1000, INT_MAX/4, INT_MAX/4+1, INT_MAX/3+1, INT_MAX/2-1, INT_MAX/2, INT_MAX/2+1, INT_MAX/2+2, INT_MAX-1001, INT_MAX-1000, INT_MAX-999, INT_MAX-40, INT_MAX-33, INT_MAX-32, INT_MAX-31, INT_MAX-26, INT_MAX-25, INT_MAX-24, INT_MAX-23, INT_MAX-18, INT_MAX-17, INT_MAX-16, INT_MAX-15, INT_MAX-14, INT_MAX-9, INT_MAX-8, INT_MAX-7, INT_MAX-6, INT_MAX-5, INT_MAX-4, INT_MAX-3, INT_MAX-2, INT_MAX-1, INT_MAX};
	int N = sizeof(sz)/sizeof(*sz), i, j, op;
	vh_init(argc, argv);
	for(i=0; i<3; i++)
	{
		reg[i].base = mmap(NULL, REGION + 8192, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
		if(reg[i].base == MAP_FAILED) { perror("mmap"); return 2; }
	}
	zeros = mmap(NULL, REGION, PROT_READ, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	if(zeros == MAP_FAILED) { perror("mmap"); return 2; }
	vh_section("every content size against every source size");
	for(i=0; i<N; i++) for(j=0; j<N; j++)
	{
		if(!vh_slice()) continue;
		for(op=0; op<NOP; op++) for(int k=0; k<5; k++)
		{
			//	fixed of full capacity, dynamic with the content just fitting, a bit of room, rounded up, full capacity
			int cap = k == 0 || k == 4 ? INT_MAX : k == 1 ? sz[i] : k == 2 ? (sz[i] > INT_MAX-5 ? INT_MAX : sz[i]+5) : (sz[i] > INT_MAX-16 ? INT_MAX : (sz[i]+15)/16*16);
			if(!vh_case()) continue;
			VH_DESC("%s of %d bytes, %s buffer of capacity %d holding %d", nm[op], sz[j], k ? "dynamic" : "fixed", cap, sz[i]);
			VH_NONTRIV((long)sz[i]+sz[j] > INT_MAX-64);
			step(k != 0, cap, sz[i], op, sz[j]);
		}
	}
	vh_section("views of itself");
	for(i=0; i<N; i++)
	{
		if(!vh_slice()) continue;
		if((long)sz[i]*2 <= INT_MAX) continue;
		for(int k=0; k<6; k++) for(int dyn=0; dyn<2; dyn++)
		{
			if(!vh_case()) continue;
			VH_DESC("own content of %d doubled, form %d, %s", sz[i], k, dyn ? "dynamic" : "fixed");
			VH_NONTRIV(1);
			strbuf_t* b = make(dyn, dyn ? sz[i] : INT_MAX, sz[i]);
			strview_t v = strbuf_view(&b), r;
			switch(k)
			{
				case 0: r = strbuf_append(&b, v); break;
				case 1: r = strbuf_prepend(&b, v); break;
				case 2: r = strbuf_insert_at_index(&b, -5, v); break;
				case 3: r = strbuf_cat(&b, v, v); break;
				case 4: r = strbuf_cat(&b, v, cstr("x"), v, v, v); break;
				default: r = strbuf_insert_after(&b, ((strview_t){b->cstr+3, 4}), v); break;
			}
			VH_CHECK(b->size == 0 && b->cstr[0] == 0 && r.data == b->cstr && r.size == 0, "own content of %d doubled, form %d: %d bytes left", sz[i], k, b->size);
			vh->trans++; vh->traces++;
		}
	}
	vh_section("sequences of append_char to the limit");
	if(vh_slice())
		for(int dyn=0; dyn<2; dyn++) for(int d=0; d<=40; d++)
		{
			if(!vh_case()) continue;
			VH_DESC("%d characters below the limit, %s", d, dyn ? "dynamic" : "fixed");
			VH_NONTRIV(1);
			strbuf_t* b = make(dyn, dyn ? INT_MAX-d : INT_MAX, INT_MAX-d);
			for(int k=1; k<=d; k++)
			{
				strbuf_append_char(&b, 'c');
				VH_CHECK(b->size == INT_MAX-d+k && b->cstr[b->size-1] == 'c' && b->cstr[b->size] == 0 && b->capacity >= b->size, "append_char at %d: size %d capacity %d", INT_MAX-d+k-1, b->size, b->capacity);
				vh->trans++;
			}
			strview_t r = strbuf_append_char(&b, 'c');
			VH_CHECK(b->size == 0 && b->cstr[0] == 0 && r.size == 0, "append_char at INT_MAX: size %d", b->size);
			vh->traces++;
		}
	vh_section("formatted output");
	{
		struct { const char* f; int w; long out; } P[] = { {"%*d",INT_MAX,INT_MAX}, {"%*d!",INT_MAX,-1}, {"%*d",INT_MAX-1,INT_MAX-1}, {"%2$d%1$*1$d",INT_MAX,-1}, {"%*d",1<<30,1<<30}, {"%*d",5,5}, {"%*d",20,20}, {"%*d",0,1}, {"%*c",INT_MAX-16,INT_MAX-16} };
		static const int as[] = {0, 1, 16, 17, 1<<30, (1<<30)-1, INT_MAX-21, INT_MAX-20, INT_MAX-19, INT_MAX-6, INT_MAX-5, INT_MAX-4, INT_MAX-1, INT_MAX};
		for(i=0; i<9; i++) for(j=0; j<14; j++)
		{
			if(!vh_slice()) continue;
			for(int k=0; k<4; k++)
			{
				bool dyn = k&1, app = k&2;
				long want = P[i].out < 0 ? -1 : (app ? as[j] : 0) + P[i].out;
				if(want >= 0 && want <= INT_MAX && P[i].out > 1000) continue;
				if(!vh_case()) continue;
				VH_DESC("printf %s width %d, %s %s buffer holding %d", P[i].f, P[i].w, app ? "appended to" : "assigned to", dyn ? "dynamic" : "fixed", as[j]);
				VH_NONTRIV(1);
				strbuf_t* b = make(dyn, dyn ? as[j] : INT_MAX, as[j]);
				strview_t r = app ? strbuf_append_printf(&b, P[i].f, P[i].w, 7) : strbuf_printf(&b, P[i].f, P[i].w, 7);
				if(want < 0 || want > INT_MAX) want = 0;
				VH_CHECK(b->size == want && b->cstr[want] == 0 && r.data == b->cstr && r.size == want && b->capacity >= want, "printf %s width %d to a content of %d: size %d, expected %ld; content %s view %s", P[i].f, P[i].w, as[j], b->size, want, vh_q(b->cstr, 30), vh_q(r.data, r.size < 30 ? r.size : 30));
				if(dyn) VH_CHECK(blk_size(b) >= (long)sizeof(strbuf_t) + b->capacity + 1, "allocation of %ld bytes for a capacity of %d", blk_size(b), b->capacity);
				vh->trans++; vh->traces++;
			}
		}
	}
	vh_section("append_using");
	for(i=0; i<N; i++) for(j=0; j<N; j++) for(int k=0; k<3; k++)
	{
		int cap = k == 0 || sz[i] > INT_MAX-100 ? INT_MAX : sz[i]+100, room = cap-sz[i];
		if(!vh_slice() || !vh_case()) continue;
		VH_DESC("append_using, %s buffer of capacity %d holding %d, fetcher answers %d", k == 1 ? "dynamic" : "fixed", cap, sz[i], sz[j]);
		VH_NONTRIV(1);
		strbuf_t* b = make(k == 1, cap, sz[i]);
		room = b->capacity - sz[i];
		fetch_ans = k == 2 && sz[j] <= room ? room - sz[j] : sz[j]; fetch_n = 0;
		strview_t r = strbuf_append_using(&b, fetch, b);
		VH_CHECK(fetch_n == 1 && fetch_space == room && fetch_at == b->cstr + sz[i], "append_using with %d of %d used: %d calls, asked for %d", sz[i], cap, fetch_n, fetch_space);
		if(fetch_ans > room) VH_CHECK(b->size == 0 && b->cstr[0] == 0 && !r.data && !r.size, "fetcher answered %d for %d: size %d", fetch_ans, room, b->size);
		else VH_CHECK(b->size == sz[i]+fetch_ans && b->cstr[b->size] == 0 && r.size == b->size && r.data == b->cstr, "fetcher answered %d for %d: size %d", fetch_ans, room, b->size);
		vh->trans++; vh->traces++;
	}
	vh_section("formatted output of prnf");
	{
		static const char* const S[] = {"", "1", "12", "seven77", "sixteen chars...", "seventeen chars..", "forty characters, a bit more than others."};
		for(i=0; i<N; i++) for(j=0; j<7; j++) for(int k=0; k<4; k++)
		{
			bool dyn = k&1; int cap = k&2 ? INT_MAX : sz[i];
			long len = strlen(S[j]), want = (long)sz[i] + len;
			if(!vh_slice() || !vh_case()) continue;
			VH_DESC("append_prnf of %ld characters, %s buffer of capacity %d holding %d", len, dyn ? "dynamic" : "fixed", cap, sz[i]);
			VH_NONTRIV(want > INT_MAX-64);
			strbuf_t* b = make(dyn, cap, sz[i]);
			strview_t r = strbuf_append_prnf(&b, "%s%s", "", S[j]);
			if(want > (dyn ? INT_MAX : cap)) want = 0;
			VH_CHECK(b->size == want && b->cstr[want] == 0 && r.data == b->cstr && r.size == want && b->capacity >= want, "append_prnf of %ld characters to a content of %d: size %d, expected %ld; content %s", len, sz[i], b->size, want, vh_q(b->cstr, 30));
			if(want) VH_CHECK(!memcmp(b->cstr+want-len, S[j], len), "append_prnf of %ld characters to a content of %d: ends with %s", len, sz[i], vh_q(b->cstr+want-len, len));
			if(dyn) VH_CHECK(blk_size(b) >= (long)sizeof(strbuf_t) + b->capacity + 1, "allocation of %ld bytes for a capacity of %d", blk_size(b), b->capacity);
			vh->trans++; vh->traces++;
		}
	}
	vh_section("creation and growth");
	if(vh_slice())
	{
		static const size_t big[] = {(size_t)INT_MAX+1, (size_t)INT_MAX+2, (size_t)INT_MAX+25, UINT32_MAX-24, UINT32_MAX, (size_t)UINT32_MAX+1, (size_t)UINT32_MAX+2, (size_t)UINT32_MAX+100, (size_t)1<<33, (size_t)1<<62, SIZE_MAX/2, SIZE_MAX/2+1, SIZE_MAX-26, SIZE_MAX-25, SIZE_MAX-24, SIZE_MAX-1, SIZE_MAX};
		for(i=0; i<17; i++)
		{
			if(!vh_case()) continue;
			VH_DESC("create with capacity %zu", big[i]);
			VH_NONTRIV(1);
			fresh(); n_alloc = 0;
			VH_CHECK(!strbuf_create_empty(big[i], &alc) && !strbuf_create(big[i], &alc), "creation with capacity %zu is not refused", big[i]);
			VH_CHECK(n_alloc == 0, "refused creation called the allocator for %zu bytes", last_req);
			VH_CHECK(!strbuf_create_empty(big[i], NULL), "creation with capacity %zu is not refused by the default allocator", big[i]);
			vh->trans++;
		}
		for(i=0; i<N; i++) for(j=0; j<N; j++)
		{
			if(!vh_case()) continue;
			VH_DESC("grow from %d to %d", sz[i], sz[j]);
			strbuf_t* b = make(true, sz[i], sz[i] < 5 ? sz[i] : 5);
			int size = b->size;
			strview_t r = strbuf_grow(&b, sz[j]);
			VH_CHECK(b->capacity >= sz[j] && b->capacity >= sz[i] && b->size == size && r.data == b->cstr && blk_size(b) >= (long)sizeof(strbuf_t) + b->capacity + 1, "grow from %d to %d: capacity %d", sz[i], sz[j], b->capacity);
			r = strbuf_shrink(&b);
			VH_CHECK(b->capacity == size && b->size == size, "shrink to %d: capacity %d", size, b->capacity);
			strbuf_destroy(&b);
			vh->trans += 2;
		}
		for(i=0; i<N; i++)
		{
			if(!vh_case()) continue;
			if(sz[i] > 1000 && !vh_thorough) continue;
			VH_DESC("create with an initial text of %d", sz[i]);
			fresh(); n_alloc = 0;
			strbuf_t* b = strbuf_create_init((strview_t){(char*)zeros, sz[i]}, &alc);
			VH_CHECK(b && b->size == sz[i] && b->capacity >= sz[i], "create with an initial text of %d", sz[i]);
		}
	}
	return vh_end();
}
