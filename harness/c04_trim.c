//	C04 trimming and dequoting
#include "vh.h"
#include "triple.h"
#include "huge.h"
#include "pool.h"
#include "refview.h"

static void agree(const char* what, strview_t src, strview_t set, strview_t got, strview_t want)
{
	VH_CHECK(rv_agree(got, want, src.data, src.data+src.size), "%s(%s, %s) returned %s at %ld, expected %s at %ld", what, rv_str(src), rv_str(set), rv_str(got), (long)(got.data-src.data), rv_str(want), (long)(want.data-src.data));
}
static void check(strview_t s, strview_t set)
{
	agree("trim", s, set, strview_trim(s, set), r_trim(s, set, 3));
	agree("trim_start", s, set, strview_trim_start(s, set), r_trim(s, set, 1));
	agree("trim_end", s, set, strview_trim_end(s, set), r_trim(s, set, 2));
}
static void check_cstr(strview_t s, const char* c)
{
	strview_t set = c ? RV(c, strlen(c)) : RV_INVALID;
	char* m = (char*)c;
	agree("trim(const char*)", s, set, strview_trim(s, c), r_trim(s, set, 3));
	agree("trim_start(const char*)", s, set, strview_trim_start(s, c), r_trim(s, set, 1));
	agree("trim_end(const char*)", s, set, strview_trim_end(s, c), r_trim(s, set, 2));
	agree("trim(char*)", s, set, strview_trim(s, m), r_trim(s, set, 3));
	agree("trim_start(char*)", s, set, strview_trim_start(s, m), r_trim(s, set, 1));
	agree("trim_end(char*)", s, set, strview_trim_end(s, m), r_trim(s, set, 2));
}
static void dq(strview_t s)
{
	agree("dequote", s, RV_INVALID, strview_dequote(s), r_dequote(s));
}
int main(int argc, char** argv)
{
	static const unsigned char a5[] = {' ','x','y',0,0xff}, c5[] = {' ','x','y',1,0xff}, q4[] = {'"','\'','a','`'};
	static char big[150100], set256[300];
	int i, j, k;
	vh_init(argc, argv);
	vh_slot_t s, t; vh_slot_init(&s, 150100); vh_slot_init(&t, 600);

	vh_section("trim: all texts x all sets");
	vh_pool_t src = pool_make(0, vh_thorough ? 6 : 5, a5, 5, false), set = pool_make(0, 3, a5, 5, false);
	for(i=0; i<=src.count; i++)
	{
		if(!vh_slice()) continue;
		for(j=0; j<=set.count; j++)
		{
			strview_t a = i<src.count ? src.v[i] : RV_INVALID, b = j<set.count ? set.v[j] : RV_INVALID;
			if(!vh_case()) continue;
			VH_DESC("%s by %s", rv_str(a), rv_str(b));
			VH_NONTRIV(a.size && b.size);
			check(a, b);
		}
	}
	vh_section("trim: C string sets");
	vh_pool_t cs = pool_make(0, 2, c5, 5, true), src4 = pool_make(0, 4, a5, 5, false);
	for(i=0; i<=src4.count; i++)
	{
		if(!vh_slice()) continue;
		for(j=0; j<=cs.count; j++)
		{
			strview_t a = i<src4.count ? src4.v[i] : RV_INVALID;
			const char* c = j<cs.count ? cs.v[j].data : NULL;
			if(!vh_case()) continue;
			VH_DESC("%s by C string %s", rv_str(a), c ? vh_q(c,strlen(c)) : "NULL");
			VH_NONTRIV(a.size && c);
			check_cstr(a, c);
		}
	}
	vh_section("trim: every byte of the text against every byte of the set");
	for(i=0; i<256; i++)
	{
		if(!vh_slice()) continue;
		for(j=0; j<256; j++)
			for(k=0; k<3; k++)
			{
				char x[5] = {i,i,'k',i,i}, y[3] = {'0',j,'1'};
				if(!vh_case()) continue;
				if(k == 2) x[2] = i;
				strview_t a = RV(vh_slot_set(&s, x, 5, 0), 5), b = RV(vh_slot_set(&t, k ? y : y+1, k ? 3 : 1, 0), k ? 3 : 1);
				VH_DESC("%s by %s", rv_str(a), rv_str(b));
				VH_NONTRIV(1);
				check(a, b);
			}
	}
	vh_section("trim: no character of a set has a meaning of its own");
	for(i=0; i<256; i++)
	{
		if(!vh_slice()) continue;
		static const unsigned char ends[][2] = {{'0','9'},{'a','c'},{'A','z'},{1,255},{'9','0'},{' ',' '},{'[',']'},{'n','t'},{'d','s'}};
		for(int e=0; e<9; e++) for(j=0; j<4; j++)
		{
			unsigned char lo = ends[e][0], hi = ends[e][1], y[4][3] = {{lo,i,hi},{i,lo,hi},{lo,hi,i},{i,lo,i}};
			for(int c=0; c<256; c++)
			{
				unsigned char x[5] = {c,i,'k',c,c};
				if(!vh_case()) continue;
				if(e & 1) x[1] = lo;
				strview_t a = RV(vh_slot_set(&s, x, 5, 0), 5), b = RV(vh_slot_set(&t, y[j], 3, 0), 3);
				VH_DESC("%s by %s", rv_str(a), rv_str(b));
				VH_NONTRIV(1);
				check(a, b);
			}
		}
		for(j=0; j<256; j++)
		{
			unsigned char y[2] = {i,j}, C[12] = {i,j,i^0x20,j^0x20,(i+j)/2,' ','\t','\n','n','t','0','k'};
			for(k=0; k<12; k++)
			{
				unsigned char x[4] = {C[k],'~',j,C[k]};
				if(!vh_case()) continue;
				strview_t a = RV(vh_slot_set(&s, x, 4, 0), 4), b = RV(vh_slot_set(&t, y, 2, 0), 2);
				VH_DESC("%s by %s", rv_str(a), rv_str(b));
				VH_NONTRIV(1);
				check(a, b);
			}
		}
	}
	vh_section("trim: lengths of the trimmed and kept parts");
	static const int L[] = {0,1,2,3,7,8,9,15,16,17,31,32,33,63,64,65,127,128,129,255,256,257,300,1000,4096,33000,65535,65536,70000};
	static const int SL[] = {1,2,8,9,64,128,255,256,300};
	for(i=0; i<29; i++) for(j=0; j<29; j++)
	{
		if(!vh_slice()) continue;
		for(k=0; k<29; k++)
			for(int sl=0; sl<9; sl++)
			{
				int n = L[i]+L[j]+L[k];
				if(n > 150000 || (long)n*SL[sl] > (vh_thorough ? 3000000 : 200000)) continue;
				if(!vh_case()) continue;
				//	set: characters which do not occur, and the trimmed character as the last
				memset(set256, '#', SL[sl]); set256[SL[sl]-1] = '.';
				memset(big, '.', L[i]); memset(big+L[i], '.', L[j]); memset(big+L[i]+L[j], '.', L[k]);
				if(L[j]) { big[L[i]] = 'k'; big[L[i]+L[j]-1] = 'm'; }
				strview_t a = RV(vh_slot_set(&s, big, n, 0), n), b = RV(vh_slot_set(&t, set256, SL[sl], 0), SL[sl]);
				VH_DESC("%d trimmed, %d kept, %d trimmed, set of %d", L[i], L[j], L[k], SL[sl]);
				VH_NONTRIV(n);
				check(a, b);
			}
	}
	vh_section("trim: the set is part of the text");
	static const char tx[] = "abcabca  b";
	for(i=0; i<=10; i++) for(int l=0; i+l<=10; l++)
	{
		if(!vh_slice()) continue;
		for(j=0; j<=10; j++) for(int m=0; j+m<=10; m++)
		{
			if(!vh_case()) continue;
			char* p = vh_slot_set(&s, tx, 10, 0);
			VH_DESC("window %d+%d by window %d+%d", i, l, j, m);
			VH_NONTRIV(l && m);
			check(RV(p+i,l), RV(p+j,m));
		}
	}
	vh_section("dequote: all texts");
	vh_pool_t qp = pool_make(0, vh_thorough ? 9 : 7, q4, 4, false);
	for(i=0; i<=qp.count; i++)
	{
		if(!vh_slice()) continue;
		if(!vh_case()) continue;
		strview_t a = i<qp.count ? qp.v[i] : RV_INVALID;
		VH_DESC("%s", rv_str(a));
		VH_NONTRIV(a.size > 1);
		dq(a);
	}
	vh_section("dequote: every pair of end bytes");
	for(i=0; i<256; i++)
	{
		if(!vh_slice()) continue;
		for(j=0; j<256; j++) for(k=0; k<=6; k++)
		{
			char x[8] = {i, 'a', 'b', '"', '\'', 'x', 'y', 'z'};
			if(!vh_case()) continue;
			x[k] = (k || j == i) ? j : i;
			strview_t a = RV(vh_slot_set(&s, x, k+1, 0), k+1);
			VH_DESC("%s", rv_str(a));
			VH_NONTRIV(k);
			dq(a);
		}
	}
	vh_section("dequote: every byte among quotes");
	for(i=0; i<256; i++)
	{
		unsigned char B[4] = {'"','\'',i,'a'};
		if(!vh_slice()) continue;
		for(int n=1; n<=6; n++) for(long x=0; x<vh_pow(n < 6 ? 4 : 3, n); x++)
		{
			unsigned char w[8];
			if(!vh_case()) continue;
			vh_text(w, x, n, B, n < 6 ? 4 : 3);
			strview_t a = RV(vh_slot_set(&s, w, n, 0), n);
			VH_DESC("%s", rv_str(a));
			VH_NONTRIV(n > 1);
			dq(a);
		}
	}
	vh_section("dequote: depth");
	for(i=0; i<300; i++) for(j=0; j<2; j++)
	{
		if(!vh_slice()) continue;
		for(k=0; k<12; k++)
		{
			int n = 0, d;
			if(!vh_case()) continue;
			char q = j ? '"' : '\'', o = j ? '\'' : '"';
			for(d=0; d<i; d++) big[n++] = q;
			if(k & 1) big[n++] = o;
			if(k >= 2) for(d=0; d<k; d++) big[n++] = 'a'+d;
			if(k & 1) big[n++] = o;
			for(d=0; d<i+(k==8)-(k==9); d++) big[n++] = q;
			strview_t a = RV(vh_slot_set(&s, big, n, 0), n);
			VH_DESC("%d levels of %c, shape %d", i, q, k);
			VH_NONTRIV(i);
			dq(a);
		}
	}
	vh_section("dequote: length of the text within");
	for(i=0; i<29; i++) for(j=0; j<4; j++)
	{
		if(!vh_slice()) continue;
		for(k=0; k<64; k++) for(int x=-2; x<=2; x++)
		{
			//	up to 4 quotes at each end, of either kind, around L[i]+x characters with a quote among them or not
			int n = 0, len = L[i]+x;
			if(len < 0 || !vh_case()) continue;
			for(int q=0; q<=j; q++) big[n++] = k >> (q < 3 ? q : 2) & 1 ? '"' : '\'';
			memset(big+n, 'a', len);
			if(len > 8) big[n+len/2] = '"', big[n+len/3] = '\'';
			n += len;
			for(int q=j; q>=0; q--) big[n++] = k >> (q < 3 ? q+3 : 2) & 1 ? '"' : '\'';
			strview_t a = RV(vh_slot_set(&s, big, n, 0), n);
			VH_DESC("%d quotes (kinds %#x) around %d characters", j+1, k, len);
			VH_NONTRIV(1);
			dq(a);
		}
	}
	HUGE_EACH(i)
	{
		int n = HZ[i];
		char* a = huge_text(n, ' ');
		strview_t v = {a, n}, r;
		VH_DESC("trim of %d characters", n);
		VH_NONTRIV(1);
		r = strview_trim(v, " \t"); VH_CHECK(r.data && r.size == 0, "trim of %d spaces leaves %d", n, r.size);
		int at[] = {0, n/2, (1<<20)-2, n-1};
		for(int k=0; k<4; k++)
		{
			a[at[k]] = 'y';
			r = strview_trim(v, " "); VH_CHECK(r.data == a+at[k] && r.size == 1, "trim of %d spaces with a letter at %d leaves %d", n, at[k], r.size);
			r = strview_trim_start(v, " "); VH_CHECK(r.data == a+at[k] && r.size == n-at[k], "trim_start of %d spaces with a letter at %d leaves %d", n, at[k], r.size);
			r = strview_trim_end(v, " "); VH_CHECK(r.data == a && r.size == at[k]+1, "trim_end of %d spaces with a letter at %d leaves %d", n, at[k], r.size);
			a[at[k]] = ' ';
			vh->trans += 3;
		}
		memset(a, '"', n/2); memset(a+n/2, '"', n-n/2);
		r = strview_dequote(v); VH_CHECK(r.size == n%2 && (!r.size || r.data == a+n/2), "dequote of %d quotes leaves %d", n, r.size);
		memset(a+3, 'q', n-6);
		r = strview_dequote(v); VH_CHECK(r.size == n-6 && r.data == a+3, "dequote of %d characters in 3 quotes leaves %d", n-6, r.size);
		//	a set of that size
		memset(a, '.', n); a[n-1] = '!';
		strview_t d = strview_trim(cstr("!a!"), v);
		VH_CHECK(d.size == 1, "trim by the last of a set of %d", n);
		free(a);
	}
	{
		unsigned char* u = malloc(5);
		TRIPLE_EACH(b)
		{
			VH_DESC("%s", vh_q(b, 3));
			VH_NONTRIV(1);
			strview_t v = RV((char*)b, 3), w = RV((char*)u, 5);
			u[0] = b[2]; u[1] = 'x'; u[2] = b[1]; u[3] = 'x'; u[4] = b[0];
			agree("trim", v, RV(" \t", 2), strview_trim(v, " \t"), r_trim(v, RV(" \t", 2), 3));
			agree("trim", w, v, strview_trim(w, v), r_trim(w, v, 3));
			agree("trim", v, w, strview_trim(v, w), r_trim(v, w, 3));
			dq(v);
			u[1] = b[0]; u[2] = b[1]; u[3] = b[2]; u[0] = u[4] = '"';
			dq(w);
			vh->trans += 5;
		}
		free(u); free(b);
	}
	return vh_end();
}
