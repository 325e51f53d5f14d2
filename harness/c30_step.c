//	C30 growth steps so large that capacity + step is near or beyond INT_MAX: every growing operation at small sizes
#include "vh.h"
#include "strbuf.h"
#include <sys/mman.h>

//	places for a few allocations, each with room for every request; untouched pages cost nothing
enum { NPLACE = 6 };
static char* mem[NPLACE]; static size_t asked[NPLACE];
static int place(const void* p) { for(int i=0; i<NPLACE; i++) if(p == mem[i]) return i; return -1; }
static int live(void) { int n = 0; for(int i=0; i<NPLACE; i++) n += asked[i] > 0; return n; }
static void* al(struct strbuf_allocator_t* a, void* p, size_t n)
{
	int i = 0;
	(void)a;
	if(p)
	{
		i = place(p);
		if(i < 0 || !asked[i]) vh_fail("the allocator was given a pointer which is not live");
	}
	else while(i < NPLACE && asked[i]) if(++i == NPLACE) vh_fail("harness: more than %d allocations at a time", NPLACE);
	if(n > (size_t)INT_MAX + 4096) vh_fail("the allocator was asked for %zu bytes", n);
	asked[i] = n;
	return n ? mem[i] : NULL;
}
static strbuf_allocator_t A = { .allocator = al };
static long roundup(long n)
{
	long r = (n + (long)EXPECT_STEP - 1) / EXPECT_STEP * EXPECT_STEP;
	return r > INT_MAX ? INT_MAX : r;
}
static strview_t run_op(strbuf_t** b, int op, strview_t s)
{
	strview_t r = STRVIEW_INVALID;
	switch(op)
	{
		case 0: r = strbuf_append(b, s); break;
		case 1: r = strbuf_prepend(b, s); break;
		case 2: r = strbuf_insert_at_index(b, (*b)->size, s); break;
		case 3: r = strbuf_assign(b, s); break;
		case 4: r = strbuf_cat(b, s, cstr("")); break;
		case 5: for(int i=0; i<s.size; i++) r = strbuf_append_char(b, s.data[i]); if(!s.size) r = strbuf_view(b); break;
#ifdef STRBUF_PROVIDE_PRINTF
		case 6: r = strbuf_append_printf(b, "%.*s", s.size, s.data); break;
#endif
#ifdef STRBUF_PROVIDE_PRNF
		case 7: r = strbuf_append_prnf(b, "%s", s.data); break;
#endif
		case 8: r = strbuf_insert_before(b, strbuf_view(b), s); break;
		case 9: r = strbuf_insert_after(b, strbuf_view(b), s); break;
		default: r.size = -1;
	}
	return r;
}
int main(int argc, char** argv)
{
	static char t[64];
	vh_init(argc, argv);
	if(STRBUF_CAPACITY_GROW_STEP != EXPECT_STEP) vh_fail("STRBUF_CAPACITY_GROW_STEP is %d, expected %d", (int)STRBUF_CAPACITY_GROW_STEP, EXPECT_STEP);
	for(int i=0; i<NPLACE; i++)
	{
		mem[i] = mmap(NULL, (size_t)INT_MAX + 8192, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
		if(mem[i] == MAP_FAILED) abort();
	}
	vh_slice();
	vh_section("every growing operation at small sizes");
	for(int cap=0; cap<=20; cap++) for(int pre=0; pre<=cap && pre<=10; pre+=5) for(int n=0; n<=40; n++) for(int op=0; op<10; op++)
	{
		if(!vh_case()) continue;
		VH_DESC("operation %d of %d characters on %d of %d", op, n, pre, cap);
		VH_NONTRIV(n + pre > cap);
		strbuf_t* b = strbuf_create(cap, &A);
		VH_CHECK(b && b->capacity >= cap, "create of %d", cap);
		cap = b->capacity < 64 ? b->capacity : cap;
		if(b->capacity != cap) { strbuf_destroy(&b); continue; }	//	creation may round up
		for(int i=0; i<pre; i++) strbuf_append_char(&b, 'a'+i);
		for(int i=0; i<n; i++) t[i] = 'A'+i;
		t[n] = 0;
		strview_t r = run_op(&b, op, (strview_t){t, n});
		if(r.size == -1) { strbuf_destroy(&b); continue; }
		int size = op == 3 || op == 4 ? n : pre + n, at = op == 1 || op == 3 || op == 4 || op == 8 ? 0 : pre;
		VH_CHECK(b->size == size && r.size == size && r.data == b->cstr && !memcmp(b->cstr+at, t, n) && b->cstr[size] == 0, "content %s", vh_q(b->cstr, b->size > 100 ? 100 : b->size));
		VH_CHECK(b->capacity == (size > cap ? roundup(size) : cap), "capacity %d for a size of %d, was %d: expected %ld", b->capacity, size, cap, size > cap ? roundup(size) : (long)cap);
		int k = place(b);
		VH_CHECK(k >= 0 && live() == 1 && asked[k] >= sizeof(strbuf_t) + (size_t)b->capacity + 1, "%d allocations; the buffer's is of %zu bytes for a capacity of %d", live(), k < 0 ? 0 : asked[k], b->capacity);
		strbuf_shrink(&b);
		VH_CHECK(b->capacity == size && b->size == size && b->cstr[size] == 0 && !memcmp(b->cstr+at, t, n), "shrink");
		strbuf_destroy(&b);
		VH_CHECK(!b && !live(), "destroy");
		vh->trans++;
	}
	return vh_end();
}
