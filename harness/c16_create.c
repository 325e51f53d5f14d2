//	C16 creation of buffers
#include "bufmodel.h"
//	an empty fixed buffer of capacity cap: takes cap characters, and is emptied by one more
static void usable(strbuf_t* b, int cap, const char* what)
{
	strbuf_t* p = b;
	strview_t r;
	VH_CHECK(b->capacity == cap, "%s: capacity %d, expected %d", what, b->capacity, cap);
	VH_CHECK(b->size == 0 && b->cstr[0] == 0, "%s: not empty and terminated", what);
	VH_CHECK(!b->allocator.allocator && !b->allocator.app_data, "%s: has an allocator", what);
	if(cap > 5000) return;
	for(int i=0; i<cap; i++)
	{
		r = strbuf_append_char(&p, 'a' + i%26);
		VH_CHECK(p == b && b->size == i+1 && b->cstr[i+1] == 0 && r.data == b->cstr && r.size == i+1, "%s: full after %d characters", what, i);
	}
	r = strbuf_append_char(&p, 'z');
	VH_CHECK(p == b && b->size == 0 && b->cstr[0] == 0 && b->capacity == cap && r.data == b->cstr && r.size == 0, "%s: %d characters after overfilling", what, b->size);
	r = strbuf_grow(&p, cap+1);
	VH_CHECK(!r.data && p == b && b->capacity == cap, "%s: grow of a fixed buffer", what);
	vh->trans += cap + 2;
}
#define STAT(c) do{ static strbuf_space_t(c) sp = STRBUF_STATIC_INIT(c); strbuf_t* b; strbuf_space_t(c) au = STRBUF_STATIC_INIT(c); \
	if(!vh_case()) break; VH_DESC("static and automatic buffer of %d", (int)(c)); VH_NONTRIV(1); \
	b = (strbuf_t*)&sp; usable(b, (c), "STRBUF_STATIC_INIT"); b = (strbuf_t*)&au; usable(b, (c), "STRBUF_STATIC_INIT (automatic)"); \
	b = STRBUF_FIXED_CAP(c); usable(b, (c), "STRBUF_FIXED_CAP"); usable(file_##c, (c), "STRBUF_FIXED_CAP at file scope"); \
	VH_CHECK(sizeof(sp) >= sizeof(strbuf_t) + (c) + 1, "strbuf_space_t(%d) is too small", (int)(c)); }while(0)
//	a capacity given by an expression
#define STATX(val, ...) do{ static strbuf_space_t(__VA_ARGS__) sp = STRBUF_STATIC_INIT(__VA_ARGS__); strbuf_t* b; strbuf_space_t(__VA_ARGS__) au = STRBUF_STATIC_INIT(__VA_ARGS__); \
	if(!vh_case()) break; VH_DESC("static and automatic buffer of %s", #__VA_ARGS__); VH_NONTRIV(1); \
	VH_CHECK(sizeof(sp) >= sizeof(strbuf_t) + (val) + 1, "strbuf_space_t(%s) is too small", #__VA_ARGS__); \
	b = (strbuf_t*)&sp; usable(b, (val), "STRBUF_STATIC_INIT(" #__VA_ARGS__ ")"); b = (strbuf_t*)&au; usable(b, (val), "STRBUF_STATIC_INIT (automatic)"); \
	b = STRBUF_FIXED_CAP(__VA_ARGS__); usable(b, (val), "STRBUF_FIXED_CAP(" #__VA_ARGS__ ")"); }while(0)
enum { EN = 24 };
#define OBJ 3 + 5
#ifdef RUNTIME_CAP
static void runtime_cap(int n, char c, short s, unsigned u, long l)
{
	strbuf_t* b = STRBUF_FIXED_CAP(n); strbuf_t* d = STRBUF_FIXED_CAP(n + 1); strbuf_t* e = STRBUF_FIXED_CAP(n ? n : 3);
	usable(b, n, "STRBUF_FIXED_CAP of a variable"); usable(d, n+1, "STRBUF_FIXED_CAP of a variable"); usable(e, n ? n : 3, "STRBUF_FIXED_CAP of a variable"); usable(b, n, "STRBUF_FIXED_CAP of a variable");
	if(n > 120) return;
	b = STRBUF_FIXED_CAP(c); usable(b, n, "STRBUF_FIXED_CAP of a char"); b = STRBUF_FIXED_CAP(s); usable(b, n, "STRBUF_FIXED_CAP of a short");
	b = STRBUF_FIXED_CAP(u); usable(b, n, "STRBUF_FIXED_CAP of an unsigned"); b = STRBUF_FIXED_CAP(l); usable(b, n, "STRBUF_FIXED_CAP of a long");
}
#endif
#define F(c) static strbuf_t* file_##c = STRBUF_FIXED_CAP(c);
F(0) F(1) F(2) F(3) F(4) F(5) F(6) F(7) F(8) F(9) F(10) F(15) F(16) F(17) F(31) F(32) F(33) F(63) F(64) F(100) F(127) F(128) F(255) F(256) F(1000) F(4096)

int main(int argc, char** argv)
{
	static unsigned char t[3000];
	int n, a, i;
	vh_slot_t s;
	vh_init(argc, argv);
	bm_init(3000, 3000);
	vh_slot_init(&s, 8000);
	for(i=0; i<3000; i++) t[i] = (unsigned char)(i*7+i/256);
	vh_section("create_fixed: every size and alignment");
	static unsigned char fill[8000];
	memset(fill, 0xEE, sizeof(fill));
	for(n=0; n<=(vh_thorough ? 2200 : 700); n++)
	{
		if(!vh_slice()) continue;
		for(a=0; a<16; a++)
		{
			if(!vh_case()) continue;
			VH_DESC("create_fixed at alignment %d with %d bytes", a, n);
			VH_NONTRIV(n > 24);
			unsigned char* p = vh_slot_set(&s, fill, n, a);
			strbuf_t* b = strbuf_create_fixed(p, n);
			if(a % sizeof(void*) || n <= (int)sizeof(strbuf_t))
			{
				VH_CHECK(b == NULL, "create_fixed at alignment %d with %d bytes did not return NULL", a, n);
				VH_CHECK(!memcmp(p, fill, n), "create_fixed refused the memory but wrote to it");
			}
			else
			{
				VH_CHECK((void*)b == (void*)p, "create_fixed at alignment %d with %d bytes returned %p, expected %p", a, n, (void*)b, (void*)p);
				usable(b, n - (int)sizeof(strbuf_t) - 1, "create_fixed");
			}
		}
	}
	vh_section("create_fixed: sizes beyond int and NULL");
	if(vh_slice())
	{
		static const size_t big[] = {INT_MAX-30, INT_MAX-1, INT_MAX, (size_t)INT_MAX+1, (size_t)INT_MAX+24, (size_t)INT_MAX+25, (size_t)INT_MAX+26, (size_t)INT_MAX+27, UINT32_MAX-1, UINT32_MAX, (size_t)UINT32_MAX+1, (size_t)UINT32_MAX+25, (size_t)UINT32_MAX+26, (size_t)UINT32_MAX+100, (size_t)1<<40, SIZE_MAX/2, SIZE_MAX-1, SIZE_MAX};
		for(i=0; i<18; i++) for(a=0; a<9; a++)
		{
			if(!vh_case()) continue;
			VH_DESC("create_fixed at alignment %d with %zu bytes", a, big[i]);
			VH_NONTRIV(1);
			unsigned char* p = vh_slot_set(&s, fill, 25, a);
			strbuf_t* b = strbuf_create_fixed(p, big[i]);
			size_t cap = big[i] - sizeof(strbuf_t) - 1;
			if(a % 8) VH_CHECK(!b, "misaligned memory accepted");
			else
			{
				VH_CHECK((void*)b == (void*)p, "memory of %zu bytes refused", big[i]);
				usable(b, cap > INT_MAX ? INT_MAX : (int)cap, "create_fixed of a huge size");
			}
			VH_CHECK(!strbuf_create_fixed(NULL, big[i]), "create_fixed(NULL, %zu) did not return NULL", big[i]);
		}
		for(n=0; n<100; n++)
			if(vh_case()) VH_CHECK(!strbuf_create_fixed(NULL, n), "create_fixed(NULL, %d) did not return NULL", n);
	}
	vh_section("static and stack buffers");
	if(vh_slice())
	{
		STAT(0); STAT(1); STAT(2); STAT(3); STAT(4); STAT(5); STAT(6); STAT(7); STAT(8); STAT(9); STAT(10); STAT(15); STAT(16); STAT(17); STAT(31); STAT(32); STAT(33);
		STAT(63); STAT(64); STAT(100); STAT(127); STAT(128); STAT(255); STAT(256); STAT(1000); STAT(4096);
	}
	vh_section("capacities given by an expression");
	if(vh_slice())
	{
		STATX(8, 1 ? 8 : 2); STATX(2, 0 ? 8 : 2); STATX(7, 3 | 4); STATX(16, 1 << 4); STATX(12, 20 - 8); STATX(6, 14 & 7); STATX(7, 2*3 + 1); STATX(5, 2 ^ 7); STATX(40, sizeof(int)*10); STATX(65, 'A');
		STATX(24, EN); STATX(8, OBJ); STATX(16, 2*(OBJ)); STATX(1, 5 == 5); STATX(1, 3 || 0); STATX(0, 3 && 0); STATX(9, (9)); STATX(4, 70 % 11); STATX(3, ~-4); STATX(10, 10u); STATX(31, 31L); STATX(15, 0xF); STATX(63, 077);
		STATX(9, EN > 20 ? 9 : 300); STATX(300, EN < 20 ? 9 : 300); STATX(64, 1 << 2 + 4); STATX(12, 8 | 4 & 7); STATX(33, sizeof(char[33]));
		#ifdef RUNTIME_CAP
		for(n=0; n<600; n++) if(vh_case()) { VH_DESC("capacity %d known at run time", n); runtime_cap(n, n, n, n, n); }
		#endif
	}
	vh_section("create: every capacity and initial text");
	for(n=0; n<=(vh_thorough ? 2500 : 1200); n++)
	{
		if(!vh_slice()) continue;
		for(i=0; i<6; i++)
		{
			if(!vh_case()) continue;
			VH_DESC("create %d with %d", i, n);
			VH_NONTRIV(1);
			arena_reset(i & 1);
			strbuf_t* b;
			unsigned char* p = vh_slot_set(&s, t, n, 0);
			size_t z = n;
			switch(i)
			{
				case 0: b = strbuf_create_empty(n, arena_allocator()); break;
				case 1: b = strbuf_create(n, arena_allocator()); break;
				case 2: b = strbuf_create(z, arena_allocator()); break;
				case 3: b = strbuf_create_init((strview_t){(char*)p, n}, arena_allocator()); break;
				case 4: b = strbuf_create(((strview_t){(char*)p, n}), arena_allocator()); break;
				default: b = n&1 ? strbuf_create_init(STRVIEW_INVALID, arena_allocator()) : strbuf_create(n, NULL); break;
			}
			VH_CHECK(b, "create returned NULL");
			int want = i == 3 || i == 4 ? n : 0;
			VH_CHECK(b->size == want && !memcmp(b->cstr, t, want) && !b->cstr[want], "create %d with %d: content %s", i, n, vh_q(b->cstr, b->size));
			VH_CHECK(b->capacity >= (i < 3 || i == 5 && !(n&1) ? n : want), "create %d with %d: capacity %d", i, n, b->capacity);
			if(i != 5 || n&1)
			{
				VH_CHECK(b->allocator.allocator == arena_alloc && b->allocator.app_data == arena_app(), "create did not store the allocator");
				VH_CHECK(arena_size(b) >= (long)sizeof(strbuf_t) + b->capacity + 1, "allocation of %ld bytes for a capacity of %d", arena_size(b), b->capacity);
			}
			//	its whole capacity is usable without growing
			int cap = b->capacity; strbuf_t* was = b;
			for(int k=b->size; k<cap; k++) strbuf_append_char(&b, 'c');
			VH_CHECK(b == was && b->size == cap && b->capacity == cap && !memcmp(b->cstr, t, want), "buffer created %d with %d: could not be filled to its capacity %d", i, n, cap);
			vh->trans += cap;
			strbuf_destroy(&b);
		}
	}
	return vh_end();
}
