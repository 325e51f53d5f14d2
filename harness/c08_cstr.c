//	C08 exporting to and from C strings
#include "vh.h"
#include "triple.h"
#include "huge.h"
#include "refview.h"
static unsigned char pat(int i, int f) { return f == 0 ? 'a' + i%26 : f == 1 ? (unsigned char)(255-i) : (unsigned char)(i % 3 ? i*7 : 0); }
//	copy a view of n bytes to a destination of exactly d bytes
static void copy(vh_slot_t* s, vh_slot_t* o, int n, long d, int f)
{
	static unsigned char t[70100], x[70200];
	int i, c;
	for(i=0; i<n; i++) t[i] = pat(i, f);
	for(i=0; i<d; i++) x[i] = 0xC0 + i%7;
	strview_t v = RV(vh_slot_set(s, t, n, 0), n);
	unsigned char* p = vh_slot_set(o, x, d, 0);
	char* r = strview_to_cstr((char*)p, d, v);
	c = !d ? 0 : n < d-1 ? n : d-1;
	VH_CHECK(r == (char*)p, "to_cstr returned %p, not dst", r);
	VH_CHECK(!memcmp(p, t, c), "to_cstr of %d bytes to %ld: wrong bytes %s", n, d, vh_q(p, d));
	if(d) VH_CHECK(p[c] == 0, "to_cstr of %d bytes to %ld: not terminated", n, d);
	for(i=c+1; i<d; i++)
		VH_CHECK(p[i] == x[i], "to_cstr of %d bytes to %ld: byte %d after the terminator changed", n, d, i);
	VH_CHECK(!memcmp(v.data, t, n), "to_cstr modified the view's text");
}
int main(int argc, char** argv)
{
	vh_slot_t s, o, z;
	int n, d, f, M;
	char out[400], ref[400];
	vh_init(argc, argv);
	vh_slot_init(&s, 70100); vh_slot_init(&o, 70200); vh_slot_init(&z, 400);
	M = vh_thorough ? 300 : 140;
	vh_section("to_cstr: every content length against every destination size");
	for(n=0; n<=M; n++)
	{
		if(!vh_slice()) continue;
		for(d=0; d<=M+3; d++) for(f=0; f<3; f++)
		{
			if(!vh_case()) continue;
			VH_DESC("%d bytes to a destination of %d", n, d);
			VH_NONTRIV(d);
			copy(&s, &o, n, d, f);
		}
	}
	vh_section("to_cstr: every two bytes where the text is cut");
	for(int x=0; x<256; x++)
	{
		if(!vh_slice()) continue;
		for(int y=0; y<256; y++) for(f=0; f<2; f++)
		{
			unsigned char t[5] = {f ? 'k' : x, x, y, y, f ? 'k' : x}, g[8];
			if(!vh_case()) continue;
			strview_t v = RV(vh_slot_set(&s, t, 5, 0), 5);
			VH_DESC("%s to destinations of 1 to 7", rv_str(v));
			VH_NONTRIV(1);
			for(d=1; d<=7; d++) for(n=1; n<=5; n++)
			{
				int c = n < d-1 ? n : d-1;
				memset(g, 0xC3, sizeof(g));
				unsigned char* p = vh_slot_set(&o, g, d, 0);
				v.size = n;
				char* r = strview_to_cstr((char*)p, d, v);
				VH_CHECK(r == (char*)p && !memcmp(p, t, c) && !p[c], "to_cstr(%s) to %d bytes gave %s", rv_str(v), d, vh_q(p, d));
				for(int i=c+1; i<d; i++) VH_CHECK(p[i] == 0xC3, "to_cstr(%s) to %d bytes: byte %d after the terminator changed", rv_str(v), d, i);
			}
		}
	}
	vh_section("to_cstr: large sizes");
	static const int big[] = {0,1,127,128,255,256,257,4095,4096,32767,32768,65535,65536,65537,70000};
	for(n=0; n<15; n++) for(d=0; d<15; d++)
	{
		if(!vh_slice()) continue;
		for(int k=-2; k<=2; k++)
		{
			if(!vh_case()) continue;
			if(big[d]+k < 0) continue;
			VH_DESC("%d bytes to a destination of %d", big[n], big[d]+k);
			VH_NONTRIV(1);
			copy(&s, &o, big[n], big[d]+k, 0);
		}
	}
	vh_section("to_cstr: sizes beyond any view, invalid views, NULL destination");
	if(vh_slice())
		for(n=0; n<40; n++)
		{
			static const size_t ds[] = {0, 1, INT_MAX, (size_t)INT_MAX+1, UINT32_MAX, (size_t)UINT32_MAX+1, (size_t)UINT32_MAX+2, SIZE_MAX/2, SIZE_MAX-1, SIZE_MAX};
			char t[64], x[64];
			if(!vh_case()) continue;
			VH_DESC("%d bytes to huge destination sizes", n);
			memset(t, 'v', sizeof(t));
			strview_t v = RV(vh_slot_set(&s, t, n, 0), n);
			for(int k=0; k<10; k++)
			{
				memset(x, 0x33, sizeof(x));
				char* p = vh_slot_set(&o, x, n+1, 0);
				VH_CHECK(strview_to_cstr(NULL, ds[k], v) == NULL, "to_cstr(NULL) did not return NULL");
				if(ds[k] < 2 && n) continue;
				if(ds[k] == 0) continue;
				VH_CHECK(strview_to_cstr(p, ds[k], v) == p && !memcmp(p, t, n) && !p[n], "to_cstr of %d bytes with dst_size %zu gave %s", n, ds[k], vh_q(p, n+1));
			}
			//	invalid views copy as an empty string
			char* p = vh_slot_set(&o, x, n, 0);
			memset(p, 0x33, n);
			VH_CHECK(strview_to_cstr(p, n, RV_INVALID) == p, "to_cstr(invalid) did not return dst");
			for(int k=0; k<n; k++) VH_CHECK(p[k] == (k ? 0x33 : 0), "to_cstr(invalid) byte %d is %d", k, p[k]);
			VH_CHECK(strview_to_cstr(NULL, n, RV_INVALID) == NULL, "to_cstr(NULL, invalid)");
		}
	vh_section("cstr, cstr_SL, PRIstr: all lengths and bytes");
	for(n=0; n<=300; n++)
	{
		if(!vh_slice()) continue;
		for(f=0; f<2; f++)
		{
			if(!vh_case()) continue;
			VH_DESC("C string of %d bytes", n);
			VH_NONTRIV(n);
			for(int i=0; i<n; i++) { ref[i] = pat(i, f); if(!ref[i]) ref[i] = 1; }
			ref[n] = 0;
			char* p = vh_slot_set(&z, ref, n+1, 0);
			strview_t v = cstr(p);
			VH_CHECK(v.data == p && v.size == n, "cstr of %d bytes gave size %d", n, v.size);
			VH_CHECK(strview_is_valid(v), "cstr not valid");
			//	print a view which is not terminated
			v = RV(vh_slot_set(&s, ref, n, 0), n);
			memset(out, 'Z', sizeof(out));
			int r = snprintf(out, sizeof(out), "<%"PRIstr">", PRIstrarg(v));
			VH_CHECK(r == n+2 && out[0] == '<' && !memcmp(out+1, ref, n) && out[n+1] == '>' && !out[n+2], "PRIstr of %d bytes printed %s", n, vh_q(out, strlen(out)));
		}
	}
	vh_section("PRIstr: all windows of a text, invalid view, literals");
	static const char lit[] = "the quick brown fox";
	for(n=0; n<20; n++)
	{
		if(!vh_slice()) continue;
		for(d=0; n+d<20; d++)
		{
			if(!vh_case()) continue;
			VH_DESC("window %d+%d", n, d);
			VH_NONTRIV(d);
			strview_t v = RV(lit+n, d);
			int r = snprintf(out, sizeof(out), "%"PRIstr"|%"PRIstr"", PRIstrarg(v), PRIstrarg(v));
			VH_CHECK(r == 2*d+1 && !memcmp(out, lit+n, d) && out[d] == '|' && !memcmp(out+d+1, lit+n, d), "PRIstr printed %s", vh_q(out, r));
		}
	}
	if(vh_slice() && vh_case())
	{
		strview_t v = cstr(NULL);
		VH_CHECK(!v.data && !v.size && !strview_is_valid(v), "cstr(NULL) not invalid");
		v = STRVIEW_INVALID;
		VH_CHECK(!v.data && !v.size && !strview_is_valid(v), "STRVIEW_INVALID is valid");
		v = cstr("");
		VH_CHECK(v.data && !v.size && strview_is_valid(v), "cstr(\"\") not valid and empty");
		static const strview_t S = {"x",1};
		v = cstr_SL("");			VH_CHECK(v.data && v.size == 0, "cstr_SL(\"\") has size %d", v.size);
		v = cstr_SL("a");			VH_CHECK(v.size == 1 && *v.data == 'a', "cstr_SL(\"a\") has size %d", v.size);
		v = cstr_SL("hello\tyou\xff");	VH_CHECK(v.size == 10 && !memcmp(v.data, "hello\tyou\xff", 10), "cstr_SL has size %d", v.size);
		VH_CHECK(snprintf(out, sizeof(out), "%"PRIstr, PRIstrarg(cstr(NULL))) == 0, "invalid view prints something");
		strview_t a = cstr("one"), b = S, a0 = a;
		strview_swap(&a, &b);
		VH_CHECK(a.data == S.data && a.size == 1 && b.data == a0.data && b.size == 3, "strview_swap is wrong");
	}
	HUGE_EACH(i)
	{
		int n = HZ[i];
		char* a = huge_text(n+1, 'x'), * d;
		a[n] = 0; a[n-1] = 'y';
		VH_DESC("C string of %d", n);
		VH_NONTRIV(1);
		strview_t v = cstr(a);
		VH_CHECK(v.data == a && v.size == n, "cstr of %d characters has size %d", n, v.size);
		for(int k=-2; k<=2; k++)
		{
			d = huge_text(n+k, 'Z');
			int w = k > 0 ? n : n+k-1;
			VH_CHECK(strview_to_cstr(d, n+k, v) == d && !memcmp(d, a, w) && !d[w] && (k < 2 || d[n+1] == 'Z'), "to_cstr of %d characters to %d", n, n+k);
			free(d);
			vh->trans++;
		}
		d = huge_text(n+10, 'Z');
		VH_CHECK(snprintf(d, n+10, "<%"PRIstr">", PRIstrarg(v)) == n+2 && !memcmp(d+1, a, n) && d[n+1] == '>', "PRIstr of %d characters", n);
		free(d); free(a);
	}
	{
		TRIPLE_EACH(b)
		{
			VH_DESC("%s", vh_q(b, 3));
			VH_NONTRIV(1);
			char g[6], z[4] = {b[0], b[1], b[2], 0};
			for(int q=1; q<6; q++)
			{
				int c = q-1 < 3 ? q-1 : 3;
				memset(g, 0x5A, 6);
				VH_CHECK(strview_to_cstr(g, q, RV((char*)b, 3)) == g && !memcmp(g, b, c) && !g[c], "to_cstr of %s to %d bytes: %s", vh_q(b, 3), q, vh_q(g, 6));
				for(int j=c+1; j<6; j++) VH_CHECK(g[j] == 0x5A, "to_cstr of %s to %d bytes: byte %d after the terminator changed", vh_q(b, 3), q, j);
			}
			strview_t v = cstr(z);
			int l = !z[0] ? 0 : !z[1] ? 1 : !z[2] ? 2 : 3;
			VH_CHECK(v.data == z && v.size == l, "cstr of %s: %d characters", vh_q(z, 3), v.size);
			vh->trans += 6;
		}
		free(b);
	}
	return vh_end();
}
