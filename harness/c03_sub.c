//	C03 sub views, index splits, pop
#include "vh.h"
#include "triple.h"
#include "huge.h"
#include "refview.h"

static void check_sub(strview_t s, int b, int e)
{
	bool open;
	strview_t w = r_sub(s, b, e, &open), g = strview_sub(s, b, e);
	if(open)
		VH_CHECK(g.size == 0 && (!g.data || (g.data >= s.data && g.data <= s.data+s.size)), "sub(%s, %d, %d) returned %s", rv_str(s), b, e, rv_str(g));
	else
		VH_CHECK(g.size == w.size && g.data == w.data, "sub(%s, %d, %d) returned %s at %ld, expected %s at %ld", rv_str(s), b, e, rv_str(g), (long)(g.data-s.data), rv_str(w), (long)(w.data-s.data));
}
static void check_split(strview_t s, int i)
{
	strview_t a = s, b = s;
	strview_t w = r_split_index(&a, i), g = strview_split_index(&b, i);
	VH_CHECK(g.data == w.data && g.size == w.size && b.data == a.data && b.size == a.size, "split_index(%s, %d) returned %s leaving %s, expected %s leaving %s", rv_str(s), i, rv_str(g), rv_str(b), rv_str(w), rv_str(a));
}
static void check_pop(strview_t s)
{
	strview_t b = s;
	char g = strview_pop_first_char(&b);
	if(s.size)
		VH_CHECK(g == s.data[0] && b.size == s.size-1 && b.data == s.data+1, "pop_first_char(%s) returned %d leaving %s", rv_str(s), g, rv_str(b));
	else
		VH_CHECK(g == 0 && b.size == 0 && b.data == s.data, "pop_first_char(%s) returned %d", rv_str(s), g);
}
static int idx_list(int* l, int n)
{
	int c = 0, i;
	int w = n < 12 ? n + 3 : 3;
	static const int ex[] = {INT_MIN, INT_MIN+1, INT_MIN+2, INT_MAX, INT_MAX-1, INT_MAX-2, -65536, -65535, -32768, -257, -256, -129,-128,-127, 127,128,129,255,256,257, 32767,32768,65535,65536, 1<<24, -(1<<24), INT_MIN/2, INT_MAX/2};
	for(i=-w; i<=w; i++) l[c++] = i;
	if(n >= 12)
		for(i=-w; i<=w; i++) { l[c++] = n+i; l[c++] = -n+i; l[c++] = n/2+i; l[c++] = -n/2+i; }
	for(i=0; i<(int)(sizeof(ex)/sizeof(*ex)); i++) l[c++] = ex[i];
	for(i=-2; i<=2; i++) { l[c++] = i<=0 ? INT_MAX - n + i : INT_MAX - n; l[c++] = INT_MIN + n + i; }
	return c;
}
int main(int argc, char** argv)
{
	static char txt[70010];
	int l[200], nl, n, i, j;
	static const int big[] = {127,128,129,254,255,256,257,1000,4096,32767,32768,65535,65536,70000};
	vh_slot_t s;
	vh_init(argc, argv);
	vh_slot_init(&s, 70010);
	for(i=0; i<70010; i++) txt[i] = "abcdefghij\0klmnopq\xff"[i%20];
	vh_section("sub: all index pairs on all lengths");
	for(int k=0; k<(vh_thorough ? 130 : 40)+14; k++)
	{
		n = k < 14 ? big[k] : k-14;
		for(int off=0; off<2; off++)
		{
			nl = idx_list(l, n);
			if(vh_thorough && n < 60) { int c = nl; for(i=-2*n-1; i<=2*n+1 && c<200; i++) l[c++] = i; nl = c; }
			if(!vh_slice()) continue;
			strview_t v = RV(vh_slot_set(&s, txt+off*9, n, 0), n);
			for(i=0; i<nl; i++)
				for(j=0; j<nl; j++)
				{
					if(!vh_case()) continue;
					VH_DESC("sub of %d characters, %d to %d", n, l[i], l[j]);
					VH_NONTRIV(n && l[i] < n && l[i] >= -n);
					check_sub(v, l[i], l[j]);
				}
		}
	}
	vh_section("sub: full index plane on short texts");
	for(n=0; n<=6; n++)
	{
		if(!vh_slice()) continue;
		strview_t v = RV(vh_slot_set(&s, txt, n, 0), n);
		for(i=-20; i<=20; i++) for(j=-20; j<=20; j++)
		{
			if(!vh_case()) continue;
			VH_DESC("sub of %d characters, %d to %d", n, i, j);
			VH_NONTRIV(n);
			check_sub(v, i, j);
		}
	}
	vh_section("sub and split of invalid views");
	if(vh_slice())
	{
		nl = idx_list(l, 0);
		for(i=0; i<nl; i++) for(j=0; j<nl; j++)
		{
			if(!vh_case()) continue;
			VH_DESC("invalid view, indexes %d %d", l[i], l[j]);
			strview_t v = RV_INVALID, g = strview_sub(v, l[i], l[j]);
			VH_CHECK(!g.data && !g.size, "sub(invalid, %d, %d) returned %s", l[i], l[j], rv_str(g));
			g = strview_split_index(&v, l[i]);
			VH_CHECK(!g.data && !g.size && !v.data && !v.size, "split_index(invalid, %d) returned %s leaving %s", l[i], rv_str(g), rv_str(v));
			g = strview_split_index(NULL, l[i]);
			VH_CHECK(!g.data && !g.size, "split_index(NULL, %d) returned %s", l[i], rv_str(g));
			check_pop(RV_INVALID);
			VH_CHECK(strview_pop_first_char(NULL) == 0, "pop_first_char(NULL) not 0");
		}
	}
	vh_section("split_index: every index on every length");
	for(int k=0; k<(vh_thorough ? 301 : 140)+14; k++)
	{
		n = k < 14 ? big[k] : k-14;
		if(!vh_slice()) continue;
		strview_t v = RV(vh_slot_set(&s, txt, n, 0), n);
		nl = idx_list(l, n);
		for(i=0; i<nl; i++)
		{
			if(!vh_case()) continue;
			VH_DESC("split_index of %d characters at %d", n, l[i]);
			VH_NONTRIV(n);
			check_split(v, l[i]);
		}
		if(n <= 301)
			for(i=-n-2; i<=n+2; i++)
			{
				if(!vh_case()) continue;
				VH_DESC("split_index of %d characters at %d", n, i);
				VH_NONTRIV(n);
				check_split(v, i);
			}
	}
	vh_section("every two bytes at the border");
	for(int x=0; x<256; x++)
	{
		if(!vh_slice()) continue;
		for(int y=0; y<256; y++)
		{
			char t[7] = {'a', x, y, 'b', x, y, x};
			if(!vh_case()) continue;
			strview_t v = RV(vh_slot_set(&s, t, 7, 0), 7);
			VH_DESC("%s cut everywhere", rv_str(v));
			VH_NONTRIV(1);
			for(i=-7; i<=7; i++) check_split(v, i);
			check_sub(v, 0, 2); check_sub(v, 2, 5); check_sub(v, -6, -1); check_sub(v, 1, 3); check_sub(v, -2, INT_MAX); check_sub(v, 2, 2);
			check_pop(RV(v.data+1, 6)); check_pop(RV(v.data+1, 1)); check_pop(RV(v.data+4, 2));
		}
	}
	vh_section("pop_first_char: every byte and length");
	for(int b=0; b<256; b++)
	{
		if(!vh_slice()) continue;
		for(n=0; n<70; n++)
		{
			char t[80];
			if(!vh_case()) continue;
			memset(t, 'k', n); t[0] = b;
			VH_DESC("pop %02x from %d characters", b, n);
			VH_NONTRIV(n);
			strview_t v = RV(vh_slot_set(&s, t, n, 0), n);
			check_pop(v);
			//	popping all of it gives the text
			for(i=0; i<n; i++)
			{
				char c = strview_pop_first_char(&v);
				VH_CHECK(c == t[i], "character %d popped of %d is %d", i, n, c);
			}
			VH_CHECK(v.size == 0 && v.data, "text of %d not empty after popping %d", n, n);
			check_pop(v);
		}
	}
	HUGE_EACH(i)
	{
		int n = HZ[i], j, k;
		char* a = huge_text(n, 'x');
		strview_t v = RV(a, n);
		int at[] = {0, 1, 2, n/2, (1<<20)-2, (1<<20)-1, 1<<20, n-1, n, n+1, (1<<24)-1, 1<<24, (1<<24)+1, 1<<28, INT_MAX};
		VH_DESC("slices of a text of %d", n);
		VH_NONTRIV(1);
		for(j=0; j<15; j++) for(k=0; k<15; k++) { check_sub(v, at[j], at[k]); check_sub(v, -at[j], at[k]); check_sub(v, at[j], -at[k]); check_sub(v, -at[j], -at[k]); vh->trans += 4; }
		for(j=0; j<15; j++) { check_split(v, at[j]); check_split(v, -at[j]); vh->trans += 2; }
		free(a);
	}
	{
		TRIPLE_EACH(b)
		{
			VH_DESC("%s", vh_q(b, 3));
			VH_NONTRIV(1);
			strview_t v = RV((char*)b, 3);
			check_sub(v, 1, INT_MAX); check_sub(v, 0, -1); check_sub(v, 1, 2); check_sub(v, -2, 3);
			check_split(v, 1); check_split(v, 2); check_split(v, -1); check_pop(v);
			vh->trans += 8;
		}
		free(b);
	}
	return vh_end();
}
