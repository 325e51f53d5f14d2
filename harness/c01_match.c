//	C01 matching, prefix tests and ordering
#include "vh.h"
#include "triple.h"
#include "huge.h"
#include "pool.h"

static int up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static bool r_eq(const unsigned char* a, const unsigned char* b, long n, bool nc)
{
	for(long i=0; i<n; i++)
		if(nc ? up(a[i]) != up(b[i]) : a[i] != b[i])
			return false;
	return true;
}
static int r_cmp(strview_t a, strview_t b)
{
	const unsigned char *x = (void*)a.data, *y = (void*)b.data;
	for(int i=0; i<a.size && i<b.size; i++)
		if(x[i] != y[i])
			return x[i] < y[i] ? -1 : 1;
	return a.size < b.size ? -1 : a.size > b.size;
}
static int sgn(int x) { return (x>0) - (x<0); }

static void check(strview_t a, strview_t b)
{
	bool va = a.data, vb = b.data, r, e;
	for(int nc=0; nc<2; nc++)
	{
		e = va == vb && a.size == b.size && r_eq((void*)a.data, (void*)b.data, a.size, nc);
		r = nc ? strview_is_match_nocase(a, b) : strview_is_match(a, b);
		VH_CHECK(r == e, "strview_is_match%s(%s, %s) returned %d", nc?"_nocase":"", vh_q(a.data,a.size), vh_q(b.data,b.size), r);
		if(va || !vb || b.size)	// (invalid, valid empty) is left open by the documentation
		{
			e = vb ? (va && a.size >= b.size && r_eq((void*)a.data, (void*)b.data, b.size, nc)) : !va;
			r = nc ? strview_starts_with_nocase(a, b) : strview_starts_with(a, b);
			VH_CHECK(r == e, "strview_starts_with%s(%s, %s) returned %d", nc?"_nocase":"", vh_q(a.data,a.size), vh_q(b.data,b.size), r);
		}
	}
	if(va == vb || a.size || b.size)
	{
		int c = strview_compare(a, b), ec = r_cmp(a, b);
		VH_CHECK(sgn(c) == ec, "strview_compare(%s, %s) returned %d", vh_q(a.data,a.size), vh_q(b.data,b.size), c);
	}
}
static void check_cstr(strview_t a, const char* b)
{
	bool va = a.data, e, r;
	int n = b ? strlen(b) : 0;
	char* bb = (char*)b;
	for(int nc=0; nc<2; nc++)
	{
		e = va == !!b && a.size == n && r_eq((void*)a.data, (void*)b, n, nc);
		r = nc ? strview_is_match_nocase(a, b) : strview_is_match(a, b);
		VH_CHECK(r == e, "strview_is_match%s(%s, const char* %s) returned %d", nc?"_nocase":"", vh_q(a.data,a.size), vh_q(b,n), r);
		r = nc ? strview_is_match_nocase(a, bb) : strview_is_match(a, bb);
		VH_CHECK(r == e, "strview_is_match%s(%s, char* %s) returned %d", nc?"_nocase":"", vh_q(a.data,a.size), vh_q(b,n), r);
		if(va || !b || n)
		{
			e = b ? (va && a.size >= n && r_eq((void*)a.data, (void*)b, n, nc)) : !va;
			r = nc ? strview_starts_with_nocase(a, b) : strview_starts_with(a, b);
			VH_CHECK(r == e, "strview_starts_with%s(%s, const char* %s) returned %d", nc?"_nocase":"", vh_q(a.data,a.size), vh_q(b,n), r);
			r = nc ? strview_starts_with_nocase(a, bb) : strview_starts_with(a, bb);
			VH_CHECK(r == e, "strview_starts_with%s(%s, char* %s) returned %d", nc?"_nocase":"", vh_q(a.data,a.size), vh_q(b,n), r);
		}
	}
}

static const unsigned char A13[] = {0x00,'A','a','Z','z','@','[','`','{',0x80,0xC1,0xE1,0xff};
static const unsigned char A12[] = {0x01,'A','a','Z','z','@','[','`',0x80,0xC1,0xE1,0xff};

static void text_pairs(void)
{
	vh_section("all pairs of short texts");
	vh_pool_t p = pool_make(0, 3, A13, 13, false);
	vh_pool_t q = pool_make(0, 3, A13, 13, false);
	for(int i=0; i<p.count; i++)
	{
		if(!vh_slice()) continue;
		for(int j=0; j<q.count; j++)
		{
			if(!vh_case()) continue;
			VH_DESC("%s vs %s", vh_q(p.v[i].data,p.v[i].size), vh_q(q.v[j].data,q.v[j].size));
			VH_NONTRIV(i && j && p.v[i].size == q.v[j].size);
			check(p.v[i], q.v[j]);
		}
	}
	vh_section("views and C strings");
	vh_pool_t c = pool_make(0, 2, A12, 12, true);
	vh_pool_t d = pool_make(0, vh_thorough ? 3 : 2, A13, 13, false);
	for(int j=0; j<=c.count; j++)
	{
		if(!vh_slice()) continue;
		for(int i=0; i<=d.count; i++)
		{
			strview_t a = i < d.count ? d.v[i] : STRVIEW_INVALID;
			const char* s = j < c.count ? c.v[j].data : NULL;
			if(!vh_case()) continue;
			VH_DESC("%s vs C string %s", vh_q(a.data,a.size), s ? vh_q(s,strlen(s)) : "NULL");
			VH_NONTRIV(s && a.data);
			check_cstr(a, s);
		}
	}
}
static void byte_pairs(void)
{
	vh_section("all byte pairs at several depths");
	static const int depth[] = {0,1,2,3,4,5,6,7,8,9,15,16,17,31,32,33};
	vh_slot_t s, t; vh_slot_init(&s, 256); vh_slot_init(&t, 256);
	for(int d=0; d<(vh_thorough ? 16 : 9); d++)
		for(int x=0; x<256; x++)
		{
			if(!vh_slice()) continue;
			for(int y=0; y<256; y++)
				for(int tail=0; tail<3; tail++)
				{
					unsigned char a[64], b[64];
					int n = depth[d];
					if(!vh_case()) continue;
					memset(a, 'k', n); memset(b, 'k', n);
					a[n] = x; b[n] = y;
					a[n+1] = 'q'; b[n+1] = 'p';		// a later difference, with the opposite sense for x<y
					strview_t va = {vh_slot_set(&s, a, n+1+(tail==1), 0), n+1+(tail==1)};
					strview_t vb = {vh_slot_set(&t, b, n+1+(tail>=1), 0), n+1+(tail>=1)};
					VH_DESC("bytes %02x and %02x after %d equal ones, tail %d", x, y, n, tail);
					VH_NONTRIV(x != y);
					check(va, vb);
					check(vb, va);
				}
		}
}
//	what is compared may not depend on the byte before, the one after or a sequence they form
static void neighbours(void)
{
	vh_section("all pairs of neighbouring bytes against their variants");
	vh_slot_t s, t; vh_slot_init(&s, 64); vh_slot_init(&t, 64);
	for(int x=0; x<256; x++)
	{
		if(!vh_slice()) continue;
		for(int y=0; y<256; y++)
			for(int k=0; k<12; k++)
			{
				static const int f[12][2] = {{0,0},{0,0x20},{0x20,0},{0x20,0x20},{0,0x80},{0x80,0},{0,1},{1,0},{0x20,0xA0},{0xA0,0x20},{0x80,0x80},{0,0x40}};
				unsigned char a[6] = {'r', x, y, 'e', x, y}, b[6] = {'R', x^f[k][0], y^f[k][1], 'E', x, y^f[k][0]};
				if(!vh_case()) continue;
				int o = k & 1, n = k & 2 ? 6 - o : 3 - o;
				strview_t va = {vh_slot_set(&s, a+o, n, 0), n}, vb = {vh_slot_set(&t, b+o, n, 0), n};
				VH_DESC("%s vs %s", vh_q(a+o, n), vh_q(b+o, n));
				VH_NONTRIV(k);
				check(va, vb);
				vb.size = o ? 2 : 1;
				check(va, vb);
			}
	}
}
static int len_list(int* l)
{
	int n = 0, i;
	static const int more[] = {255,256,257,511,512,513,1023,1024,1025,4095,4096,4097,32767,32768,32769,65535,65536,65537,100001};
	int lim = vh_thorough ? 260 : 96;
	for(i=0; i<=lim; i++) l[n++] = i;
	for(i=0; i<(int)(sizeof(more)/sizeof(*more)); i++) if(more[i] > lim) l[n++] = more[i];
	return n;
}
static void lengths(void)
{
	vh_section("length, difference position and alignment sweep");
	int l[400], nl = len_list(l);
	static unsigned char a[200000], b[200000];
	vh_slot_t s, t; vh_slot_init(&s, 200000); vh_slot_init(&t, 200000);
	for(int k=0; k<nl; k++)
		for(int dm=-1; dm<=1; dm++)
			for(int off=0; off<8; off++)
			{
				int n = l[k], m = n+dm, lo = n<m?n:m;
				if(m < 0) continue;
				if(!vh_slice()) continue;
				for(int i=0; i<n || i<m; i++) a[i] = b[i] = (unsigned char)("abcdefghijklmnopqrstuvwxyz0123456789ABCDEFG"[i*7%43]);
				for(int pi=-1; pi<lo; pi++)
				{
					int pos = pi;
					if(n > 300)	// only some positions in long texts
					{
						static const int frac[] = {0,1,7,8,127,128,255,256};
						if(pi == -1) pos = -1;
						else if(pi < 8) pos = frac[pi];
						else if(pi < 16) pos = lo-1-frac[pi-8];
						else if(pi == 16) pos = lo/2;
						else break;
					}
					for(int kind=0; kind<4; kind++)
					{
						if(pos < 0 && kind) break;
						if(!vh_case()) continue;
						unsigned char sv = pos >= 0 ? b[pos] : 0;
						if(pos >= 0)
							b[pos] = kind==0 ? sv^0x20 : kind==1 ? sv|0x80 : kind==2 ? sv-1 : 0;
						strview_t va = {vh_slot_set(&s, a, n, off), n}, vb = {vh_slot_set(&t, b, m, (off*3)&7), m};
						if(pos >= 0) b[pos] = sv;
						VH_DESC("sizes %d and %d, alignment %d, difference of kind %d at %d", n, m, off, kind, pos);
						VH_NONTRIV(pos >= 0);
						check(va, vb);
						check(vb, va);
					}
				}
			}
}
static void shared(void)
{
	vh_section("views of the same text, invalid and empty views");
	static const unsigned char txt[] = "aAaaAbaA";
	vh_slot_t s; vh_slot_init(&s, 64);
	char* p = vh_slot_set(&s, txt, 8, 0);
	strview_t v[64]; int n = 0;
	for(int i=0; i<=8; i++) for(int l=0; i+l<=8; l++) v[n++] = (strview_t){p+i, l};
	v[n++] = STRVIEW_INVALID;
	v[n++] = cstr(NULL);
	v[n++] = cstr("");
	v[n++] = cstr_SL("");
	for(int i=0; i<n; i++)
	{
		if(!vh_slice()) continue;
		for(int j=0; j<n; j++)
		{
			if(!vh_case()) continue;
			VH_DESC("%s(%p) vs %s(%p)", vh_q(v[i].data,v[i].size), (void*)v[i].data, vh_q(v[j].data,v[j].size), (void*)v[j].data);
			VH_NONTRIV(v[i].size && v[j].size);
			check(v[i], v[j]);
			VH_CHECK(strview_is_valid(v[i]) == (v[i].data != NULL), "strview_is_valid(%s) wrong", vh_q(v[i].data,v[i].size));
			strview_t x = v[i], y = v[j];
			strview_swap(&x, &y);
			VH_CHECK(x.data==v[j].data && x.size==v[j].size && y.data==v[i].data && y.size==v[i].size, "strview_swap lost a view");
		}
	}
}
int main(int argc, char** argv)
{
	vh_init(argc, argv);
	shared();
	text_pairs();
	byte_pairs();
	neighbours();
	lengths();
	HUGE_EACH(i)
	{
		int n = HZ[i];
		char* a = huge_text(n, 'x'), * b = huge_text(n, 'x'), * p = huge_text(n-1, 'x');
		strview_t A = {a, n}, B = {b, n}, P = {p, n-1};
		VH_DESC("two texts of %d", n);
		VH_NONTRIV(1);
		VH_CHECK(strview_is_match(A, B) && strview_is_match_nocase(A, B) && strview_starts_with(A, P) && strview_starts_with_nocase(A, P) && !strview_compare(A, B) && strview_compare(A, P) > 0 && strview_compare(P, A) < 0, "equal texts of %d", n);
		VH_CHECK(strview_starts_with(A, B) && strview_starts_with_nocase(A, B) && strview_starts_with(P, P) && strview_starts_with_nocase(P, P), "a text of %d does not start with itself", n);
		p[n-2] = 'a';
		VH_CHECK(strview_compare(A, P) > 0 && strview_compare(P, A) < 0 && !strview_starts_with(A, P) && !strview_starts_with_nocase(A, P), "a text of %d and one which differs at its end", n-1);
		p[n-2] = 'z';
		VH_CHECK(strview_compare(A, P) < 0 && strview_compare(P, A) > 0 && !strview_starts_with(A, P) && !strview_starts_with_nocase(A, P), "a text of %d and one which differs at its end", n-1);
		p[n-2] = 'X';
		VH_CHECK(strview_compare(A, P) > 0 && strview_compare(P, A) < 0 && !strview_starts_with(A, P) && strview_starts_with_nocase(A, P), "a text of %d and one which differs in case at its end", n-1);
		p[n-2] = 'x';
		VH_CHECK(!strview_is_match(A, P) && !strview_is_match_nocase(A, P) && !strview_starts_with(P, A) && !strview_starts_with_nocase(P, A), "texts of %d and %d", n, n-1);
		int at[] = {0, n/2, (1<<20)-2, n-1};
		for(int k=0; k<4; k++)
		{
			b[at[k]] = 'y';
			VH_CHECK(!strview_is_match(A, B) && !strview_is_match_nocase(A, B) && !strview_starts_with(A, B) && !strview_starts_with_nocase(A, B) && strview_compare(A, B) < 0 && strview_compare(B, A) > 0, "texts of %d which differ at %d", n, at[k]);
			b[at[k]] = 'X';
			VH_CHECK(!strview_is_match(A, B) && strview_is_match_nocase(A, B) && !strview_starts_with(A, B) && strview_starts_with_nocase(A, B) && strview_compare(A, B) > 0, "texts of %d which differ in case at %d", n, at[k]);
			b[at[k]] = 'x';
			vh->trans += 2;
		}
		free(a); free(b); free(p);
	}
	{
		unsigned char* o = malloc(3);
		TRIPLE_EACH(t)
		{
			static const unsigned char f[6][3] = {{0,0,0}, {0x20,0x20,0x20}, {0x20,0,0}, {0,0,0x20}, {0,1,0}, {0x80,0,0x20}};
			int k = (t[0] + t[1] + t[2]) % 5 + 1;
			strview_t a = {(char*)t, 3}, b = {(char*)o, 3};
			VH_DESC("%s", vh_q(t, 3));
			VH_NONTRIV(1);
			memcpy(o, t, 3);
			VH_CHECK(strview_is_match(a, b) && strview_is_match_nocase(a, b) && strview_starts_with(a, b) && strview_starts_with_nocase(a, b) && !strview_compare(a, b), "%s does not match itself", vh_q(t, 3));
			for(int i=0; i<3; i++) o[i] = t[i] ^ f[k][i];
			check(a, b);
			b.size = 2;
			VH_CHECK(!strview_is_match(a, b) && !strview_is_match_nocase(b, a) && !strview_starts_with(b, a) && !strview_starts_with_nocase(b, a), "%s matches %s", vh_q(t, 3), vh_q(o, 2));
			vh->trans += 3;
		}
		free(o); free(t);
	}
	return vh_end();
}
