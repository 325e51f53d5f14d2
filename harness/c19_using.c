//	C19 append_using against every answer of the fetcher
#include "bufmodel.h"
#include "triple.h"
#include "huge.h"
static int calls, got_space, ret, writes; static void* got_dst; static void* got_vars; static int pattern;
static int fetcher(void* dst, int space, void* vars)
{
	calls++; got_dst = dst; got_space = space; got_vars = vars;
	//	writes as much as it likes within the space, which may differ from what it claims
	int n = writes < 0 ? 0 : writes > space ? space : writes;
	for(int i=0; i<n; i++) ((unsigned char*)dst)[i] = (unsigned char)(pattern + i*3);
	return ret;
}
static int give3(void* dst, int space, void* vars) { (void)space; memcpy(dst, vars, 3); return 3; }
static int variables;
static unsigned char init[66000];
static void step(strbuf_t** pb, m_t* m, int r, int w, int pat, void* vars)
{
	strbuf_t* b = *pb, *was = b;
	int space = b->capacity - b->size, size = b->size, cap = b->capacity;
	char* at = b->cstr + b->size;
	static unsigned char e[140000];
	memcpy(e, b->cstr, size);
	calls = 0; ret = r; writes = w; pattern = pat;
	arena_calls = 0;
	strview_t v = strbuf_append_using(pb, fetcher, vars);
	b = *pb;
	VH_CHECK(b == was && b->capacity == cap && arena_calls == 0, "append_using resized the buffer");
	VH_CHECK(calls == 1, "fetcher called %d times", calls);
	VH_CHECK(got_dst == at && got_space == space && got_vars == vars, "fetcher called with address content%+ld space %d, expected content%+d space %d", (long)((char*)got_dst - b->cstr), got_space, size, space);
	if(r >= 0 && r <= space)
	{
		for(int i=0; i<r; i++) e[size+i] = i < w ? (unsigned char)(pat + i*3) : e[size+i];
		VH_CHECK(b->size == size + r && !memcmp(b->cstr, e, size) && b->cstr[b->size] == 0, "fetcher returned %d of space %d: size %d, expected %d", r, space, b->size, size+r);
		for(int i=0; i<r && i<w; i++) VH_CHECK((unsigned char)b->cstr[size+i] == e[size+i], "fetched byte %d lost", i);
		VH_CHECK(v.data == b->cstr && v.size == b->size, "fetcher returned %d of space %d: returned view is not the content", r, space);
	}
	else
	{
		VH_CHECK(b->size == 0 && b->cstr[0] == 0, "fetcher returned %d with space %d: %d bytes left, expected an empty buffer", r, space, b->size);
		VH_CHECK(!v.data && !v.size, "fetcher returned %d with space %d: returned a valid view", r, space);
	}
	vh->trans++;
}
int main(int argc, char** argv)
{
	int kind, cap, size, r, i;
	static const int ex[] = {INT_MIN, INT_MIN+1, -65536, -256, -2, INT_MAX, INT_MAX-1, 65536, 256, 1<<30, -(1<<30), INT_MAX/2+1};
	vh_init(argc, argv);
	bm_init(70000, 140000);
	chk = F_INV;
	for(i=0; i<66000; i++) init[i] = (unsigned char)(i*5+1);
	vh_section("every state against every answer");
	for(kind=0; kind<NB_KINDS; kind++) for(cap=0; cap<=(vh_thorough ? 64 : 34); cap++) for(size=0; size<=cap; size++)
	{
		if(!vh_slice()) continue;
		m_t m = {kind, cap, size, init};
		vh->states++;
		for(r=-cap-3; r<=2*cap+4; r++) for(int w=0; w<3; w++)
		{
			if(!vh_case()) continue;
			VH_DESC("answer %d on %s", r, m_str(&m));
			VH_NONTRIV(r > 0);
			strbuf_t* b = bm_make(&m);
			step(&b, &m, r, w == 0 ? r : w == 1 ? INT_MAX : 0, 7, w ? &variables : NULL);
			vh->traces++;
		}
		for(i=0; i<12; i++) for(int w=0; w<2; w++)
		{
			//	also answers at fixed distances from the limits
			int q[] = {ex[i], INT_MAX - size, INT_MIN + size, INT_MAX - cap, INT_MIN + cap};
			for(int z=0; z<5; z++)
			{
				if(!vh_case()) continue;
				VH_DESC("answer %d on %s", q[z], m_str(&m));
				VH_NONTRIV(1);
				strbuf_t* b = bm_make(&m);
				step(&b, &m, q[z], w ? INT_MAX : 0, 9, &variables);
				vh->traces++;
			}
		}
	}
	vh_section("larger buffers");
	static const int big[] = {126,127,128,129,255,256,257,1000,2048,32767,32768,65535,65536};
	for(int c=0; c<13; c++) for(kind=0; kind<NB_KINDS; kind++)
	{
		if(!vh_slice()) continue;
		cap = big[c];
		for(int s=0; s<6; s++) for(i=-3; i<=3; i++) for(int z=0; z<6; z++)
		{
			size = s == 0 ? 0 : s == 1 ? 1 : s == 2 ? cap/2 : s == 3 ? cap-1 : s == 4 ? cap : cap-128 > 0 ? cap-128 : 3;
			int base[] = {0, cap-size, 128, 256, 32768, 65536};
			m_t m = {kind, cap, size, init};
			if(!vh_case()) continue;
			VH_DESC("answer %d on %s", base[z]+i, m_str(&m));
			VH_NONTRIV(1);
			strbuf_t* b = bm_make(&m);
			vh->states++;
			step(&b, &m, base[z]+i, INT_MAX, 50, NULL);
			vh->traces++;
		}
	}
	vh_section("histories of answers");
	for(kind=0; kind<2; kind++) for(cap=0; cap<=7; cap++) for(int a0=0; a0<9; a0++)
	{
		int D = vh_thorough ? 6 : 5, s[8] = {0};
		static const int an[] = {-1, 0, 1, 2, 3, 4, 7, 8, INT_MAX};
		if(!vh_slice()) continue;
		do
		{
			if(!vh_case()) continue;
			VH_DESC("answers %d %d %d %d on a buffer of %d", an[a0], an[s[0]], an[s[1]], an[s[2]], cap);
			m_t m = {kind, cap, 0, init};
			strbuf_t* b = bm_make(&m);
			for(i=0; i<D; i++)
				step(&b, &m, an[i ? s[i-1] : a0], i&1 ? INT_MAX : an[i ? s[i-1] : a0], i*40, &b);
			vh->traces++;
			if((unsigned long)D > vh->maxdepth) vh->maxdepth = D;
		}while(vh_next(s, D-1, 9));
	}
	vh_section("NULL buffers");
	if(vh_slice() && vh_case())
	{
		strbuf_t* n = NULL;
		calls = 0;
		strview_t v = strbuf_append_using(NULL, fetcher, NULL);
		VH_CHECK(!v.data && !v.size && !calls, "append_using(NULL)");
		v = strbuf_append_using(&n, fetcher, NULL);
		VH_CHECK(!v.data && !v.size && !calls && !n, "append_using(&NULL)");
	}
	HUGE_EACH(i)
	{
		int n = HZ[i];
		VH_DESC("room for %d", n);
		VH_NONTRIV(1);
		strbuf_t* b = strbuf_create(n, NULL);
		int take[] = {0, 1, n/2, (1<<20)-2, n-4, n-3, n-2, INT_MAX};
		for(int k=0; k<8; k++)
		{
			strbuf_assign(&b, cstr("abc"));
			calls = 0; writes = take[k]; ret = take[k];
			strview_t r = strbuf_append_using(&b, fetcher, &b);
			bool fits = take[k] <= n-3;
			VH_CHECK(calls == 1 && got_space == n-3 && got_dst == b->cstr+3 && got_vars == &b, "room for %d: offered %d", n-3, got_space);
			VH_CHECK(b->size == (fits ? 3+take[k] : 0) && !b->cstr[b->size] && b->capacity == n && (fits ? r.data == b->cstr && r.size == b->size : !r.data && !r.size), "%d fetched to room for %d: size %d", take[k], n-3, b->size);
			vh->trans++;
		}
		strbuf_destroy(&b);
	}
	{
		static char fx[sizeof(strbuf_t)+9] __attribute__((aligned(16)));
		TRIPLE_EACH(b)
		{
			VH_DESC("%s", vh_q(b, 3));
			VH_NONTRIV(1);
			strbuf_t* f = strbuf_create_fixed(fx, sizeof(fx));
			strbuf_append_using(&f, give3, b);
			strview_t r = strbuf_append_using(&f, give3, b);
			VH_CHECK(f->size == 6 && r.data == f->cstr && r.size == 6 && !f->cstr[6] && !memcmp(f->cstr, b, 3) && !memcmp(f->cstr+3, b, 3), "fetching %s twice gave %s", vh_q(b, 3), vh_q(f->cstr, f->size));
			vh->trans += 2;
		}
		free(b);
	}
	return vh_end();
}
