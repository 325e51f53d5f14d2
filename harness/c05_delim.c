//	C05 splitting by delimiter characters
#include "vh.h"
#include "triple.h"
#include "huge.h"
#include "refview.h"

static const char* DEL[] = {NULL, "", ",", ";", ",;", "a,", "}", "}a;,"};
#define ND (int)(sizeof(DEL)/sizeof(*DEL))

static void same(const char* f, strview_t src, const char* d, bool xq, strview_t g, strview_t w, strview_t gs, strview_t ws)
{
	const char* lo = src.data, *hi = src.data + src.size;
	VH_CHECK(rv_agree(g, w, lo, hi), "%s(%s, %s, %d) returned %s, expected %s", f, rv_str(src), d?vh_q(d,strlen(d)):"NULL", xq, rv_str(g), rv_str(w));
	VH_CHECK(rv_agree(gs, ws, lo, hi), "%s(%s, %s, %d) left %s, expected %s", f, rv_str(src), d?vh_q(d,strlen(d)):"NULL", xq, rv_str(gs), rv_str(ws));
}
//	every step of splitting a text to its end
static void walk(strview_t src, const char* d, bool xq, bool last)
{
	strview_t g = src, w = src;
	int steps = 0;
	vh->states++;
	do
	{
		strview_t before = w, rg, rw;
		rw = last ? r_last_delim(&w, d, xq) : r_first_delim(&w, d, xq);
		rg = last ? strview_split_last_delim(&g, d, xq) : strview_split_first_delim(&g, d, xq);
		same(last ? "split_last_delim" : "split_first_delim", before, d, xq, rg, rw, g, w);
		vh->trans++;
		vh->states++;
		if(w.data) g = w;
		if(++steps > src.size + 3) vh_fail("splitting %s does not end", rv_str(src));
	}while(g.data);
	vh->traces++;
	if((unsigned long)steps > vh->maxdepth) vh->maxdepth = steps;
}
static void all(strview_t src, const char* d, bool xq, int dst_size)
{
	strview_t want[300], w = src;
	int n = 0, i, got;
	strview_t* dst;
	char raw[300*sizeof(strview_t)];
	static vh_slot_t s; static bool init;
	if(!init) { vh_slot_init(&s, sizeof(raw)); init = true; }
	memset(raw, 0x77, dst_size*sizeof(strview_t));
	dst = vh_slot_set(&s, raw, dst_size*sizeof(strview_t), 0);
	while(w.data && n < dst_size && n < 300)
		want[n++] = r_first_delim(&w, d, xq);
	got = strview_split_all(dst_size, dst, src, d, xq);
	VH_CHECK(got == n, "split_all(%d, %s, %s, %d) returned %d, expected %d", dst_size, rv_str(src), d?vh_q(d,strlen(d)):"NULL", xq, got, n);
	for(i=0; i<n; i++)
		VH_CHECK(rv_agree(dst[i], want[i], src.data, src.data+src.size), "split_all(%d, %s, %s, %d) field %d is %s, expected %s", dst_size, rv_str(src), d?vh_q(d,strlen(d)):"NULL", xq, i, rv_str(dst[i]), rv_str(want[i]));
}
//	quotes excluded and a quote among the delimiters: whether the quote itself splits is open, but the text is still divided at delimiters
static void divide(strview_t src, const char* d, bool last)
{
	strview_t g = src;
	for(int steps=0; g.data; steps++)
	{
		strview_t b = g, r = last ? strview_split_last_delim(&g, d, true) : strview_split_first_delim(&g, d, true), l = last ? g : r, h = last ? r : g;
		vh->trans++;
		if(steps > src.size + 1) vh_fail("splitting %s does not end", rv_str(src));
		if(!g.data) { VH_CHECK(r.data == b.data && r.size == b.size && !g.size, "splitting %s: the last field is %s", rv_str(b), rv_str(r)); break; }
		VH_CHECK(l.size >= 0 && h.size >= 0 && l.size + 1 + h.size == b.size && l.data == b.data && (!h.size || h.data == b.data + l.size + 1) && r_isdelim(b.data[l.size], d), "splitting %s by %s gave %s leaving %s", rv_str(b), d, rv_str(r), rv_str(g));
	}
}
int main(int argc, char** argv)
{
	static const unsigned char A[] = {',', ';', 'a', '"', '}'};
	vh_slot_t s, ds;
	unsigned char t[700];
	int n, N, q, d, i;
	vh_init(argc, argv);
	vh_slot_init(&s, 700);
	vh_slot_init(&ds, 300);
	N = vh_thorough ? 8 : 7;
	vh_section("all short texts, every delimiter set, split step by step to the end");
	for(n=0; n<=N; n++)
		for(long k=0; k<vh_pow(5, n); k+=25)
		{
			if(!vh_slice()) continue;
			for(long j=k; j<k+25 && j<vh_pow(5,n); j++)
			{
				vh_text(t, j, n, A, 5);
				strview_t v = RV(vh_slot_set(&s, t, n, 0), n);
				for(d=0; d<ND; d++) for(q=0; q<2; q++)
				{
					if(!vh_case()) continue;
					VH_DESC("text %s delims %s quotes %d", vh_q(t,n), DEL[d]?vh_q(DEL[d],strlen(DEL[d])):"NULL", q);
					VH_NONTRIV(d > 1 && n);
					walk(v, DEL[d], q, false);
					walk(v, DEL[d], q, true);
				}
				for(d=0; d<3; d++)
				{
					static const char* QD[] = {"\"", ",\"", "\"a,"};
					if(!vh_case()) continue;
					VH_DESC("text %s delims %s", vh_q(t,n), QD[d]);
					VH_NONTRIV(n);
					walk(v, QD[d], false, false);
					walk(v, QD[d], false, true);
					if(n < N) { divide(v, QD[d], false); divide(v, QD[d], true); }
				}
			}
		}
	vh_section("split_all of all short texts into every array size");
	N = vh_thorough ? 7 : 5;
	for(n=0; n<=N; n++)
		for(long k=0; k<vh_pow(5, n); k+=25)
		{
			if(!vh_slice()) continue;
			for(long j=k; j<k+25 && j<vh_pow(5,n); j++)
			{
				vh_text(t, j, n, A, 5);
				strview_t v = RV(vh_slot_set(&s, t, n, 0), n);
				for(d=0; d<ND; d++) for(q=0; q<2; q++)
				{
					if(!vh_case()) continue;
					VH_DESC("split_all of text %s delims %s quotes %d, array of 0 to %d", vh_q(t,n), DEL[d]?vh_q(DEL[d],strlen(DEL[d])):"NULL", q, n+2);
					VH_NONTRIV(d > 1 && n);
					for(i=0; i<=n+2; i++) { all(v, DEL[d], q, i); vh->trans++; }
					if(d < 1 && !q) for(i=0; i<=n+2; i++) { all(v, ",\"", false, i); vh->trans++; }
				}
			}
		}
	vh_section("every delimiter byte against every text byte");
	for(int b=1; b<256; b++)
	{
		if(!vh_slice()) continue;
		for(int c=0; c<256; c++) for(i=0; i<4; i++)
		{
			char dl[4] = {b, 0, 0, 0};
			if(i == 1) { dl[0] = 'q'; dl[1] = b; }
			if(i >= 2 && b == '"') continue;
			if(!vh_case()) continue;
			VH_DESC("delimiter byte %02x text byte %02x form %d", b, c, i);
			VH_NONTRIV(b == c);
			//	the delimiter string in its own exactly bounded memory
			char* dp = vh_slot_set(&ds, dl, strlen(dl)+1, 0);
			char tx[8] = {'x', c, 'y', c, 'z', 'w'};
			if(i == 3) { tx[0] = '"'; tx[2] = '"'; tx[4] = '"'; tx[5] = '"'; }
			strview_t v = RV(vh_slot_set(&s, tx, 6, 0), 6);
			walk(v, dp, i == 3, false);
			walk(v, dp, i == 3, true);
			all(v, dp, i == 3, 8);
		}
	}
	vh_section("every byte among delimiters and quotes");
	for(int b=0; b<256; b++)
	{
		unsigned char B[] = {',','"',b,'a'};
		if(!vh_slice()) continue;
		for(n=2; n<=6; n++) for(long j=0; j<vh_pow(n < 6 ? 4 : 3, n); j++)
		{
			vh_text(t, j, n, B, n < 6 ? 4 : 3);
			for(q=0; q<2; q++)
			{
				if(!vh_case()) continue;
				VH_DESC("text %s, quotes %d", vh_q(t,n), q);
				VH_NONTRIV(1);
				strview_t v = RV(vh_slot_set(&s, t, n, 0), n);
				walk(v, ",", q, false);
				walk(v, ",", q, true);
				if(n < 6 && (j&1)) all(v, ",", q, n+1);
			}
		}
	}
	vh_section("no character of a delimiter set has a meaning of its own");
	for(int b=1; b<256; b++)
	{
		static const unsigned char ends[][2] = {{'0','9'},{'a','c'},{'A','z'},{1,255},{'9','0'},{' ',' '},{'[',']'},{'n','t'},{'d','s'}};
		if(!vh_slice()) continue;
		for(int e=0; e<9; e++) for(i=0; i<4; i++) for(int c=0; c<256; c++)
		{
			unsigned char lo = ends[e][0], hi = ends[e][1], y[4][4] = {{lo,b,hi},{b,lo,hi},{lo,hi,b},{b,lo,b}};
			unsigned char x[6] = {'~',c,'k',b,c,'m'};
			if(!vh_case()) continue;
			VH_DESC("text %s by %s", vh_q(x,6), vh_q(y[i],3));
			VH_NONTRIV(1);
			char* dp = vh_slot_set(&ds, y[i], 4, 0);
			strview_t v = RV(vh_slot_set(&s, x, 6, 0), 6);
			q = b != '"' && (c & 1);
			walk(v, dp, q, false);
			walk(v, dp, q, true);
		}
		for(int c=1; c<256; c++)
		{
			unsigned char y[3] = {b,c}, x[12] = {b,c,(b+c)/2,'\t',b^0x20,'n','\n','t','0',c^0x20,'k',c};
			if(!vh_case()) continue;
			VH_DESC("text %s by %s", vh_q(x,12), vh_q(y,2));
			VH_NONTRIV(1);
			char* dp = vh_slot_set(&ds, y, 3, 0);
			strview_t v = RV(vh_slot_set(&s, x, 12, 0), 12);
			walk(v, dp, false, false);
			walk(v, dp, false, true);
			all(v, dp, false, 5);
		}
	}
	vh_section("lengths: one field, delimiter at every place, quoted and not");
	for(n=0; n<=(vh_thorough ? 600 : 280); n++)
	{
		if(!vh_slice()) continue;
		for(int p=-1; p<n; p++) for(q=0; q<3; q++)
		{
			if(p > 3 && p < n-4 && p % 7 && !vh_thorough) continue;
			if(!vh_case()) continue;
			VH_DESC("length %d, delimiter at %d, form %d", n, p, q);
			VH_NONTRIV(p >= 0);
			memset(t, 'm', n);
			if(p >= 0) t[p] = '|';
			if(q == 2 && p >= 1 && p < n-1) t[p-1] = t[p+1] = '"';
			strview_t v = RV(vh_slot_set(&s, t, n, 0), n);
			walk(v, "|/", q > 0, false);
			walk(v, "|/", q > 0, true);
		}
	}
	vh_section("fields longer than 16 bit lengths");
	{
		static const int H[] = {1000, 4096, 32767, 32768, 32769, 65535, 65536, 65537, 131072};
		static unsigned char big[140000];
		static vh_slot_t bs;
		vh_slot_init(&bs, 140000);
		for(int h=0; h<9; h++) for(int p=0; p<10; p++)
		{
			if(!vh_slice()) continue;
			for(q=0; q<4; q++)
			{
				n = H[h];
				int at = p == 0 ? -1 : p == 1 ? 0 : p == 2 ? 1 : p == 3 ? n/2 : p == 4 ? n-2 : p == 5 ? n-1 : p == 6 ? 32767 : p == 7 ? 32768 : p == 8 ? 65535 : 65536;
				if(at >= n || !vh_case()) continue;
				memset(big, 'm', n);
				if(at >= 0) big[at] = '|';
				if(q == 2 && at >= 1 && at < n-1) big[at-1] = big[at+1] = '"';
				if(q == 3) { big[0] = big[n-1] = '"'; if(at == 0 || at == n-1) big[at] = '|'; }
				VH_DESC("length %d, delimiter at %d, form %d", n, at, q);
				VH_NONTRIV(1);
				strview_t v = RV(vh_slot_set(&bs, big, n, 0), n);
				walk(v, "|/", q > 0, false);
				walk(v, "|/", q > 0, true);
				all(v, "|/", q > 0, 4);
			}
		}
		for(int h=0; h<9; h++)
		{
			if(!vh_slice()) continue;
			for(q=0; q<2; q++)
			{
				if(!vh_case()) continue;
				n = H[h];
				memset(big, ',', n);
				VH_DESC("%d delimiters counted and split", n);
				strview_t v = RV(vh_slot_set(&bs, big, n, 0), n);
				walk(v, ",", q, false); walk(v, ",", q, true);
			}
		}
	}
	vh_section("many fields: split_all against every array size");
	for(n=0; n<(vh_thorough ? 290 : 140); n++)
	{
		if(!vh_slice()) continue;
		for(i=0; i<n+3; i++) for(q=0; q<2; q++)
		{
			if(!vh_case()) continue;
			VH_DESC("%d delimiters into an array of %d", n, i);
			VH_NONTRIV(1);
			memset(t, ',', n*2);
			for(int k=0; k<n; k+=2) t[2*k] = 'x';
			strview_t v = RV(vh_slot_set(&s, t, n*2, 0), n*2);
			if(n*2+1 > 298 && i > 298) continue;
			all(v, ",", q, i);
		}
	}
	vh_section("thousands of fields into arrays of every critical size");
	{
		static const int M[] = {127, 128, 255, 256, 257, 512, 1000, 1023, 1024, 1025, 4096, 32766, 32767, 32768, 65534, 65535, 65536, 70000};
		static unsigned char big[140102];
		static vh_slot_t bs, as;
		vh_slot_init(&bs, 140102);
		vh_slot_init(&as, 70010*sizeof(strview_t));
		for(int m=0; m<18; m++)
		{
			if(!vh_slice()) continue;
			for(i=0; i<18+4; i++) for(q=0; q<2; q++)
			{
				//	M[m] delimiters, one character between them where q
				int f = M[m]+1, sz = i < 18 ? M[i] : f + i - 20, k, got;
				if(sz < 0 || sz > 70002 || !vh_case()) continue;
				VH_DESC("%d fields of %d into an array of %d", f, q, sz);
				VH_NONTRIV(1);
				memset(big, ',', 2*f);
				if(q) for(k=0; k<f; k++) big[2*k] = 'x';
				n = q ? 2*f-1 : f-1;
				strview_t v = RV(vh_slot_set(&bs, big, n, 0), n);
				static unsigned char raw[70003*sizeof(strview_t)];
				strview_t* dst = vh_slot_set(&as, raw, sz*sizeof(strview_t), 0);
				got = strview_split_all(sz, dst, v, ",;", q);
				VH_CHECK(got == (sz < f ? sz : f), "split_all of %d fields into an array of %d returned %d", f, sz, got);
				for(k=0; k<got; k++)
					VH_CHECK(dst[k].data && dst[k].size == q && (!q || dst[k].data == v.data + 2*k), "split_all of %d fields: field %d is %s", f, k, rv_str(dst[k]));
				vh->trans += got;
			}
		}
	}
	vh_section("long delimiter sets");
	for(n=1; n<=255; n++)
	{
		if(!vh_slice()) continue;
		for(int c=0; c<256; c++) for(int o=0; o<4; o++)
		{
			unsigned char dl[257]; int m = 0;
			if(!vh_case()) continue;
			VH_DESC("set of %d bytes, %s, text byte %02x, quotes %d", n, o & 1 ? "ascending" : "descending", c, o >> 1);
			VH_NONTRIV(1);
			//	a quote among the delimiters is left out where quotes are excluded
			for(i=1; i<=n; i++) { int x = o & 1 ? i : 256-i; if(x != '"' || o < 2) dl[m++] = x; }
			dl[m] = 0;
			char* dp = vh_slot_set(&ds, dl, m+1, 0);
			char tx[5] = {o & 1 ? 255 : 1, c, 'k', c, o & 1 ? 255 : 1};
			strview_t v = RV(vh_slot_set(&s, tx, 5, 0), 5);
			walk(v, dp, o >= 2, false);
			walk(v, dp, o >= 2, true);
			all(v, dp, o >= 2, 6);
		}
	}
	vh_section("invalid views and NULL");
	if(vh_slice())
		for(d=0; d<ND; d++) for(q=0; q<2; q++)
		{
			if(!vh_case()) continue;
			strview_t v = RV_INVALID, r = strview_split_first_delim(&v, DEL[d], q);
			VH_CHECK(!r.data && !r.size && !v.data && !v.size, "split_first_delim of an invalid view");
			r = strview_split_last_delim(&v, DEL[d], q);
			VH_CHECK(!r.data && !r.size && !v.data && !v.size, "split_last_delim of an invalid view");
			r = strview_split_first_delim(NULL, DEL[d], q);
			VH_CHECK(!r.data && !r.size, "split_first_delim of NULL");
			r = strview_split_last_delim(NULL, DEL[d], q);
			VH_CHECK(!r.data && !r.size, "split_last_delim of NULL");
			for(i=0; i<4; i++) all(RV_INVALID, DEL[d], q, i);
		}
	HUGE_EACH(i)
	{
		int n = HZ[i];
		char* a = huge_text(n, 'x');
		VH_DESC("splits of a text of %d", n);
		VH_NONTRIV(1);
		int at[] = {0, n/2, (1<<20)-2, n-1};
		for(int k=0; k<4; k++) for(int q=0; q<2; q++)
		{
			a[at[k]] = ',';
			strview_t v = {a, n}, r = strview_split_first_delim(&v, ";,", q);
			VH_CHECK(r.data == a && r.size == at[k] && v.data && v.size == n-at[k]-1, "first delimiter at %d of %d: field of %d, %d left", at[k], n, r.size, v.size);
			v = RV(a, n); r = strview_split_last_delim(&v, ";,", q);
			VH_CHECK(r.data && r.size == n-at[k]-1 && v.data == a && v.size == at[k], "last delimiter at %d of %d: field of %d, %d left", at[k], n, r.size, v.size);
			strview_t d[3];
			VH_CHECK(strview_split_all(3, d, RV(a, n), ",", q) == 2 && d[0].size == at[k] && d[1].size == n-at[k]-1, "split_all of %d at %d", n, at[k]);
			a[at[k]] = 'x';
			vh->trans += 3;
		}
		//	inside of quotes of that length
		a[0] = a[n-3] = '"'; a[n/2] = a[n-2] = ',';
		strview_t v = RV(a, n), r = strview_split_first_delim(&v, ",", true);
		VH_CHECK(r.size == n-2 && v.size == 1, "first delimiter behind quotes of %d: field of %d", n, r.size);
		a[1] = ','; a[0] = 'x'; a[2] = '"';
		v = RV(a, n); r = strview_split_last_delim(&v, ",", true);
		VH_CHECK(r.size == 1 && v.size == n-2, "last delimiter, %d", n);
		r = strview_split_last_delim(&v, ",", true);
		VH_CHECK(r.size == n-4 && v.size == 1, "last delimiter before quotes of %d: field of %d", n, r.size);
		free(a);
	}
	{
		unsigned char* u = malloc(6);
		TRIPLE_EACH(b)
		{
			VH_DESC("%s", vh_q(b, 3));
			VH_NONTRIV(1);
			char d[4] = {b[0], b[1], b[2], 0};
			strview_t v = RV((char*)b, 3), w = RV((char*)u, 6), x, y, r, s;
			u[0] = 'a'; u[1] = b[0]; u[2] = ','; u[3] = b[1]; u[4] = b[2]; u[5] = ',';
			if(memchr(b, '"', 3)) continue;		// quotes: see above
			#define TR(f, rf, src, dl, q) x = y = src; r = f(&x, dl, q); s = rf(&y, dl, q); same(#f, src, dl, q, r, s, x, y)
			TR(strview_split_first_delim, r_first_delim, w, ",", true);
			TR(strview_split_last_delim, r_last_delim, w, ";.", true);
			TR(strview_split_first_delim, r_first_delim, v, ",;", false);
			TR(strview_split_last_delim, r_last_delim, v, ",;", false);
			TR(strview_split_first_delim, r_first_delim, w, d, false);
			TR(strview_split_last_delim, r_last_delim, w, d, true);
			vh->trans += 6;
		}
		free(u); free(b);
	}
	return vh_end();
}
