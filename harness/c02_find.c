//	C02 search
#include "vh.h"
#include "triple.h"
#include "huge.h"
#include "pool.h"
#include "refview.h"

static void check(strview_t h, strview_t n)
{
	strview_t r, e;
	for(int nc=0; nc<2; nc++)
	{
		e = r_find(h, n, false, nc);
		r = nc ? strview_find_first_nocase(h, n) : strview_find_first(h, n);
		VH_CHECK(r.data == e.data && r.size == e.size, "find_first%s(%s, %s) returned %s at %ld, expected %s at %ld", nc?"_nocase":"", rv_str(h), rv_str(n), rv_str(r), r.data ? (long)(r.data-h.data):-1, rv_str(e), e.data ? (long)(e.data-h.data):-1);
		bool c = nc ? strview_contains_nocase(h, n) : strview_contains(h, n);
		VH_CHECK(c == !!e.data, "contains%s(%s, %s) returned %d", nc?"_nocase":"", rv_str(h), rv_str(n), c);
		e = r_find(h, n, true, nc);
		r = nc ? strview_find_last_nocase(h, n) : strview_find_last(h, n);
		VH_CHECK(r.data == e.data && r.size == e.size, "find_last%s(%s, %s) returned %s at %ld, expected %s at %ld", nc?"_nocase":"", rv_str(h), rv_str(n), rv_str(r), r.data ? (long)(r.data-h.data):-1, rv_str(e), e.data ? (long)(e.data-h.data):-1);
	}
}
static void check_cstr(strview_t h, const char* n)
{
	char* m = (char*)n;
	strview_t v = n ? RV(n, strlen(n)) : RV_INVALID;
	strview_t ef = r_find(h, v, false, false), efn = r_find(h, v, false, true), el = r_find(h, v, true, false), eln = r_find(h, v, true, true);
	strview_t r[8] = { strview_find_first(h, n), strview_find_first(h, m), strview_find_first_nocase(h, n), strview_find_first_nocase(h, m),
		strview_find_last(h, n), strview_find_last(h, m), strview_find_last_nocase(h, n), strview_find_last_nocase(h, m) };
	strview_t e[8] = { ef, ef, efn, efn, el, el, eln, eln };
	for(int i=0; i<8; i++)
		VH_CHECK(r[i].data == e[i].data && r[i].size == e[i].size, "search variant %d of C string %s in %s returned %s, expected %s", i, rv_str(v), rv_str(h), rv_str(r[i]), rv_str(e[i]));
}
static void pools(const char* name, const unsigned char* al, int na, int hmax, int nmax)
{
	vh_section(name);
	vh_pool_t h = pool_make(0, hmax, al, na, false), n = pool_make(0, nmax, al, na, false);
	for(int i=0; i<h.count; i++)
	{
		if(!vh_slice()) continue;
		for(int j=0; j<n.count; j++)
		{
			if(!vh_case()) continue;
			VH_DESC("%s in %s", rv_str(n.v[j]), rv_str(h.v[i]));
			VH_NONTRIV(n.v[j].size && n.v[j].size <= h.v[i].size);
			check(h.v[i], n.v[j]);
		}
	}
}
static void windows(void)
{
	vh_section("windows of one text searched for windows of the same text");
	static const char txt[] = "abaabAbaabab";
	int L = 12;
	vh_slot_t s; vh_slot_init(&s, 64);
	char* p = vh_slot_set(&s, txt, L, 0);
	for(int i=0; i<=L; i++) for(int l=0; i+l<=L; l++)
	{
		if(!vh_slice()) continue;
		for(int k=0; k<=L; k++) for(int m=0; k+m<=L; m++)
		{
			if(!vh_case()) continue;
			VH_DESC("window %d+%d within window %d+%d", k, m, i, l);
			VH_NONTRIV(m && m <= l);
			check(RV(p+i,l), RV(p+k,m));
		}
	}
	vh_section("invalid and empty");
	strview_t v[] = { RV_INVALID, cstr(NULL), RV(p,0), RV(p+3,0), RV(p,3), cstr(""), cstr("ab") };
	if(vh_slice())
		for(int i=0; i<7; i++) for(int j=0; j<7; j++)
			if(vh_case()) { VH_DESC("%s in %s", rv_str(v[j]), rv_str(v[i])); check(v[i], v[j]); }
}
static void cstrings(void)
{
	vh_section("C string needles");
	static const unsigned char al[] = {'a','A','b',0xE1};
	vh_pool_t h = pool_make(0, 5, al, 4, false), n = pool_make(0, 2, al, 4, true);
	for(int i=0; i<=h.count; i++)
	{
		if(!vh_slice()) continue;
		for(int j=0; j<=n.count; j++)
		{
			strview_t hv = i < h.count ? h.v[i] : RV_INVALID;
			const char* c = j < n.count ? n.v[j].data : NULL;
			if(!vh_case()) continue;
			VH_DESC("C string %s in %s", c ? vh_q(c, strlen(c)) : "NULL", rv_str(hv));
			VH_NONTRIV(c && hv.size);
			check_cstr(hv, c);
		}
	}
}
static void bytes(void)
{
	vh_section("every byte searched for in every byte");
	vh_slot_t s, t; vh_slot_init(&s, 64); vh_slot_init(&t, 64);
	for(int x=0; x<256; x++)
	{
		if(!vh_slice()) continue;
		for(int y=0; y<256; y++)
			for(int shape=0; shape<4; shape++)
			{
				unsigned char h[4] = {x,x,x,x}, n[2] = {y,y};
				if(!vh_case()) continue;
				if(shape & 1) { h[0] = 'q'; h[3] = 'r'; }
				strview_t hv = {vh_slot_set(&s, h, 4, 0), 4}, nv = {vh_slot_set(&t, n, shape&2 ? 2:1, 0), shape&2 ? 2:1};
				VH_DESC("%s in %s", rv_str(nv), rv_str(hv));
				VH_NONTRIV(x != y);
				check(hv, nv);
			}
	}
}
//	what is found may not depend on the byte before, the one after or a sequence they form
static void neighbours(void)
{
	vh_section("all pairs of neighbouring bytes");
	vh_slot_t s, t; vh_slot_init(&s, 64); vh_slot_init(&t, 64);
	for(int x=0; x<256; x++)
	{
		if(!vh_slice()) continue;
		for(int y=0; y<256; y++)
		{
			unsigned char h[3][5] = {{x,y,'q',x,y}, {'q',x,y,y,'a'}, {'A',x,y,x,'q'}};
			unsigned char n[10][2] = {{x},{y},{x^0x20},{y^0x20},{x,y},{y,'q'},{x^0x20,y},{x,y^0x20},{y,x},{y,'Q'}};
			for(int i=0; i<3; i++) for(int j=0; j<10; j++)
			{
				if(!vh_case()) continue;
				int m = j < 4 ? 1 : 2;
				strview_t hv = {vh_slot_set(&s, h[i], 5, 0), 5}, nv = {vh_slot_set(&t, n[j], m, 0), m};
				VH_DESC("%s in %s", rv_str(nv), rv_str(hv));
				VH_NONTRIV(1);
				check(hv, nv);
			}
		}
	}
}
static void lengths(void)
{
	vh_section("haystack and needle length sweep");
	static char hay[200100], nee[200100];
	vh_slot_t s, t; vh_slot_init(&s, 200100); vh_slot_init(&t, 200100);
	static const int big[] = {127,128,129,255,256,257,258,511,512,513,1023,1024,1025,4095,4096,4097,32767,32768,65535,65536,65537,70000};
	static const int nl[] = {1,2,3,4,7,8,9,15,16,17,31,32,33,63,64,65,100,127,128,129,255,256,257,300,1024,4097};
	int smax = vh_thorough ? 90 : 48;
	for(int k=0; k<=smax+22; k++)
	{
		int n = k <= smax ? k : k-smax-1 < 22 ? big[k-smax-1] : -1;
		if(n < 0) continue;
		for(int q=0; q<26; q++)
		{
			int m = nl[q];
			if(m > n + 100 && m > 2*n) continue;
			if((long)n*m > 3000000) continue;
			if(!vh_slice()) continue;
			for(int pi=-1; pi<n; pi++)
			{
				int p = pi;
				if(n > smax)
				{
					int f[] = {-1,0,1,2,63,64,126,127,128,254,255,256,n/2,n-m-256,n-m-2,n-m-1,n-m,n-m+1,n-1};
					if(pi+1 >= 19) break;
					p = f[pi+1];
					if(p >= n || (pi >= 0 && p < 0)) continue;
				}
				for(int style=0; style<4; style++)
				{
					//	haystack of near misses with one (or two) occurrence(s), p = -1: none
					if(!vh_case()) continue;
					memset(hay, 'a', n);
					memset(nee, 'a', m);
					switch(style)
					{
						case 0: nee[m-1] = 'b'; if(p >= 0) hay[p] = 'b'; break;
						case 1: nee[0] = 'b'; if(p >= 0) hay[p] = 'b'; break;
						case 2: nee[m-1] = 'B'; if(p >= 0) { hay[p] = 'b'; hay[n-1] = 'B'; } break;
						case 3: nee[m/2] = (char)0xE1; if(p >= 0) { hay[p] = (char)0xE1; hay[n-1-p] = (char)0xC1; } break;
					}
					strview_t hv = RV(vh_slot_set(&s, hay, n, 0), n), nv = RV(vh_slot_set(&t, nee, m, 0), m);
					VH_DESC("needle of %d in haystack of %d, style %d, distinguished byte at %d", m, n, style, p);
					VH_NONTRIV(p >= 0 && m <= n);
					check(hv, nv);
				}
			}
		}
	}
}
int main(int argc, char** argv)
{
	static const unsigned char a3[] = {'a','A','b'}, a5[] = {0,'a','A',0xC1,0xE1};
	vh_init(argc, argv);
	windows();
	pools("case letters: all haystacks x needles", a3, 3, vh_thorough ? 9 : 7, vh_thorough ? 5 : 4);
	pools("NUL and high bytes: all haystacks x needles", a5, 5, vh_thorough ? 6 : 5, 3);
	cstrings();
	bytes();
	neighbours();
	lengths();
	HUGE_EACH(i)
	{
		int n = HZ[i];
		char* a = huge_text(n, 'x');
		strview_t A = {a, n};
		VH_DESC("search in a text of %d", n);
		VH_NONTRIV(1);
		int at[] = {0, n/2, (1<<20)-4, n-3};
		for(int k=0; k<4; k++)
		{
			memcpy(a+at[k], "abc", 3);
			VH_CHECK(strview_find_first(A, "abc").data == a+at[k] && strview_find_last(A, "abc").data == a+at[k] && strview_find_first_nocase(A, "ABC").data == a+at[k] && strview_find_last_nocase(A, "aBC").data == a+at[k] && strview_contains(A, cstr("abc")), "occurrence at %d of %d", at[k], n);
			VH_CHECK(!strview_find_first(A, "ABC").data && !strview_find_last(A, "ABC").data && !strview_contains(A, cstr("abcd")), "nothing to be found in %d", n);
			memcpy(a+at[k], "xxx", 3);
			vh->trans += 8;
		}
		//	needles which are long themselves, and differ from every place but one at their end only
		strview_t N = {a, n-1};
		VH_CHECK(strview_find_first(A, N).data == a && strview_find_last(A, N).data == a+1 && strview_find_first_nocase(A, N).size == n-1, "needle of %d in %d", n-1, n);
		a[n-1] = 'y';
		char* b = huge_text(n-1, 'x'); b[n-2] = 'y';
		N.data = b;
		VH_CHECK(strview_find_first(A, N).data == a+1 && strview_find_last(A, N).data == a+1 && strview_find_first_nocase(A, N).data == a+1 && strview_find_last_nocase(A, N).data == a+1, "needle of %d which differs at its end in %d", n-1, n);
		b[n-2] = 'z';
		VH_CHECK(!strview_find_first(A, N).data && !strview_find_last(A, N).data && !strview_contains_nocase(A, N), "needle of %d which does not occur in %d", n-1, n);
		vh->trans += 10;
		free(a); free(b);
	}
	{
		unsigned char* h = malloc(6), * n = malloc(3);
		TRIPLE_EACH(t)
		{
			static const unsigned char f[4][3] = {{0,0,0}, {0x20,0,0x20}, {0,0x20,0}, {0,0,1}};
			int k = t[2] & 3;
			VH_DESC("%s", vh_q(t, 3));
			VH_NONTRIV(1);
			h[0] = t[2]; memcpy(h+1, t, 3); h[4] = t[0]; h[5] = t[1];
			for(int i=0; i<3; i++) n[i] = t[i] ^ f[k][i];
			check(RV((char*)h, 6), RV((char*)n, 3));
			if(!k) check(RV((char*)t, 3), RV((char*)t+1, 2));
			vh->trans += 1;
		}
		free(h); free(n); free(t);
	}
	return vh_end();
}
