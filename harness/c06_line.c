//	C06 line splitting: every schedule of arriving characters and calls of strview_split_line
#include "vh.h"
#include "triple.h"
#include "huge.h"
#include "refview.h"
#define MAXT 140000

typedef struct { int b, e, end; } line_t;		// content [b,e), ending [e,end)
static line_t lines[MAXT]; static int nlines, tail;
static vh_slot_t slot;

static bool iseol(int c) { return c == '\r' || c == '\n'; }
static void spec(const unsigned char* t, int n)
{
	int b = 0;
	nlines = 0;
	for(int i=0; i<n; )
		if(iseol(t[i]))
		{
			int end = i+1 < n && iseol(t[i+1]) && t[i+1] != t[i] ? i+2 : i+1;
			lines[nlines++] = (line_t){b, i, end};
			b = i = end;
		}
		else i++;
	tail = b;
}
//	one call in the state (d delivered, c consumed, m lines seen, *eol); returns the number of lines seen after it
static int call(const unsigned char* t, int n, int d, int* c, int m, char* eol)
{
	char was = eol ? *eol : 0;
	char* p = vh_slot_set(&slot, t+*c, d-*c, 0);
	strview_t v = RV(p, d-*c), r = strview_split_line(&v, eol);
	vh->trans++;
	if(m < nlines && lines[m].e < d)
	{
		int skip = lines[m].b - *c;		// second half of the previous ending, if it is still in the source
		int len = lines[m].e - lines[m].b;
		int end = lines[m].end > d ? d : lines[m].end;
		if(skip < 0) vh_fail("line ending after line %d consumed twice", m-1);
		VH_CHECK(r.data && r.size == len && (len ? r.data == p+skip : r.data >= p && r.data <= p+d-*c), "source %s eol %d: got line %s, expected %s", vh_q(t+*c, d-*c), was, rv_str(r), vh_q(t+lines[m].b, len));
		VH_CHECK(v.data && v.size == d-end && (v.size == 0 || v.data == p+end-*c) && v.data >= p && v.data <= p+d-*c, "source %s eol %d: %d characters left, expected %d", vh_q(t+*c, d-*c), was, v.size, d-end);
		*c = end;
		return m+1;
	}
	VH_CHECK(!r.data && !r.size, "source %s eol %d: got line %s, expected none", vh_q(t+*c, d-*c), was, rv_str(r));
	VH_CHECK(v.data == p && v.size == d-*c, "source %s eol %d: source modified though no line was found", vh_q(t+*c, d-*c), was);
	return m;
}
//	every interleaving of "one more character arrives" and "strview_split_line is called", merged by state
static void schedules(const unsigned char* t, int n)
{
	typedef struct { short d, c, m; char eol; unsigned char depth; } st_t;
	static st_t q[40000];
	int h = 0, k = 0, i;
	spec(t, n);
	q[k++] = (st_t){0,0,0,0,0};
	while(h < k)
	{
		st_t s = q[h++];
		vh->states++;
		if(s.depth > vh->maxdepth) vh->maxdepth = s.depth;
		for(int op=0; op<2; op++)
		{
			st_t x = s;
			x.depth++;
			if(op == 0)
			{
				if(s.d == n) continue;
				x.d++;
			}
			else
			{
				int c = s.c;
				x.m = call(t, n, s.d, &c, s.m, &x.eol);
				x.c = c;
				vh->traces++;
			}
			for(i=0; i<k; i++)
				if(q[i].d == x.d && q[i].c == x.c && q[i].m == x.m && q[i].eol == x.eol) break;
			if(i == k) { if(k == 40000) abort(); q[k++] = x; }
		}
	}
	//	in every state where all is delivered and no line is left the remainder is the tail
	for(i=0; i<k; i++)
		if(q[i].d == n && q[i].m == nlines)
			VH_CHECK(q[i].c == tail || (nlines && q[i].c == tail-1 && q[i].c == lines[nlines-1].e+1), "%d characters consumed, expected %d", q[i].c, tail);
}
//	one chunking, calls until no line is left after each chunk. use_eol 0: whole text without eol state
static void chunks(const unsigned char* t, int n, unsigned cut, bool use_eol)
{
	int c = 0, m = 0, r;
	char eol = 0;
	spec(t, n);
	for(int d=1; d<=n; d++)
		if(d == n || (cut >> (d-1) & 1))
			while((r = call(t, n, d, &c, m, use_eol ? &eol : NULL)) != m) m = r;
	VH_CHECK(m == nlines, "%d lines found, expected %d", m, nlines);
	vh->traces++;
}
int main(int argc, char** argv)
{
	static const unsigned char A[] = {'\r','\n','x'};
	static unsigned char t[MAXT];
	int n, N;
	vh_init(argc, argv);
	vh_slot_init(&slot, MAXT);
	N = vh_thorough ? 11 : 8;
	vh_section("all short texts, all schedules of arrival and calls");
	for(n=0; n<=N; n++)
		for(long k=0; k<vh_pow(3,n); k+=27)
		{
			if(!vh_slice()) continue;
			for(long j=k; j<k+27 && j<vh_pow(3,n); j++)
			{
				if(!vh_case()) continue;
				vh_text(t, j, n, A, 3);
				VH_DESC("all schedules of %s", vh_q(t,n));
				VH_NONTRIV(n);
				schedules(t, n);
				chunks(t, n, 0, false);
			}
		}
	N = vh_thorough ? 9 : 7;
	vh_section("all short texts, all chunkings, unmerged");
	for(n=1; n<=N; n++)
		for(long k=0; k<vh_pow(3,n); k+=9)
		{
			if(!vh_slice()) continue;
			for(long j=k; j<k+9 && j<vh_pow(3,n); j++) for(unsigned cut=0; cut < 1u<<(n-1); cut++)
			{
				if(!vh_case()) continue;
				vh_text(t, j, n, A, 3);
				VH_DESC("text %s cut at %x", vh_q(t,n), cut);
				VH_NONTRIV(n);
				chunks(t, n, cut, true);
			}
		}
	vh_section("every byte value between line endings");
	for(int b=0; b<256; b++)
	{
		unsigned char B[] = {'\r','\n',b};
		if(!vh_slice()) continue;
		for(n=1; n<=4; n++) for(long j=0; j<vh_pow(3,n); j++)
		{
			if(!vh_case()) continue;
			vh_text(t, j, n, B, 3);
			VH_DESC("all schedules of %s", vh_q(t,n));
			VH_NONTRIV(1);
			schedules(t, n);
			chunks(t, n, 0, false);
		}
	}
	vh_section("every byte next to line endings");
	for(int b=0; b<256; b++)
	{
		unsigned char B[] = {'\r','\n',b,'x'};
		if(!vh_slice()) continue;
		for(n=5; n<=6; n++) for(long j=0; j<vh_pow(n == 5 ? 4 : 3, n); j++)
		{
			vh_text(t, j, n, B, n == 5 ? 4 : 3);
			for(unsigned cut=0; cut < 1u<<(n-1); cut += n == 5 ? 1 : 5)
			{
				if(!vh_case()) continue;
				VH_DESC("text %s cut at %x", vh_q(t,n), cut);
				VH_NONTRIV(1);
				chunks(t, n, cut, true);
				if(!cut) chunks(t, n, 0, false);
			}
		}
	}
	for(int b=0; b<256; b++)
	{
		if(!vh_slice()) continue;
		for(int c=0; c<256; c++) for(int f=0; f<6; f++)
		{
			static const char* sh[] = {"bc\rbc", "bc\n\rb", "b\nc\nb", "\nbc\r\n", "\rb\nc\r", "\r\nb\n\rc"};
			if(!vh_case()) continue;
			n = (int)strlen(sh[f]);
			for(int i=0; i<n; i++) t[i] = sh[f][i] == 'b' ? b : sh[f][i] == 'c' ? c : sh[f][i];
			VH_DESC("text %s", vh_q(t,n));
			VH_NONTRIV(1);
			chunks(t, n, 0, false);
			chunks(t, n, 0x1F, true);
			chunks(t, n, 0x0A, true);
		}
	}
	vh_section("line lengths: ending at every place, cut around it");
	for(n=1; n<=(vh_thorough ? 600 : 270); n++)
	{
		if(!vh_slice()) continue;
		for(int p=0; p<n; p++) for(int f=0; f<4; f++)
		{
			if(!vh_thorough && p > 6 && p < n-6 && p%9) continue;
			if(!vh_case()) continue;
			memset(t, 'l', n);
			t[p] = f&1 ? '\r' : '\n';
			if(f&2 && p+1 < n) t[p+1] = f&1 ? '\n' : '\r';
			VH_DESC("%d characters, ending form %d at %d", n, f, p);
			VH_NONTRIV(1);
			spec(t, n);
			int c = 0, m = 0, r; char eol = 0;
			for(int d=(p>2?p-2:0); d<=n; d++)
			{
				if(d > p+3 && d < n) continue;
				while((r = call(t, n, d, &c, m, &eol)) != m) m = r;
			}
			VH_CHECK(m == nlines, "%d lines found, expected %d", m, nlines);
			chunks(t, n, 0, false);
			vh->traces++;
		}
	}
	vh_section("lines longer than 16 bit lengths");
	{
		static const int H[] = {1000, 4096, 32766, 32767, 32768, 65534, 65535, 65536, 131072};
		for(int h=0; h<9; h++) for(int f=0; f<8; f++)
		{
			if(!vh_slice() || !vh_case()) continue;
			int p = H[h];
			n = p + 4 + (f>>2)*p;
			if(n > MAXT) n = MAXT;
			memset(t, 'l', n);
			t[p] = f&1 ? '\r' : '\n';
			if(f&2) t[p+1] = f&1 ? '\n' : '\r';
			VH_DESC("%d characters, ending form %d at %d", n, f, p);
			VH_NONTRIV(1);
			spec(t, n);
			int c = 0, m = 0, r; char eol = 0;
			for(int d=p-2; d<=n; d++)
			{
				if(d > p+3 && d < n) continue;
				while((r = call(t, n, d, &c, m, &eol)) != m) m = r;
			}
			VH_CHECK(m == nlines, "%d lines found, expected %d", m, nlines);
			chunks(t, n, 0, false);
		}
	}
	vh_section("invalid view and NULL");
	if(vh_slice())
		for(int e=0; e<3; e++)
		{
			if(!vh_case()) continue;
			char eol = e==0 ? 0 : e==1 ? '\r' : '\n', k = eol;
			strview_t v = RV_INVALID, r = strview_split_line(&v, &eol);
			VH_CHECK(!r.data && !r.size && !v.data && !v.size && eol == k, "split_line of an invalid view");
			r = strview_split_line(&v, NULL);
			VH_CHECK(!r.data && !r.size && !v.data && !v.size, "split_line of an invalid view");
			r = strview_split_line(NULL, &eol);
			VH_CHECK(!r.data && !r.size && eol == k, "split_line of NULL");
			r = strview_split_line(NULL, NULL);
			VH_CHECK(!r.data && !r.size, "split_line of NULL");
		}
	HUGE_EACH(i)
	{
		int n = HZ[i];
		char* a = huge_text(n, 'x');
		VH_DESC("lines of a text of %d", n);
		VH_NONTRIV(1);
		int at[] = {0, n/2, (1<<20)-4, n-2};
		for(int k=0; k<4; k++) for(int z=0; z<4; z++)
		{
			static const char* const ends[] = {"\r\n", "\n\r", "\r", "\n"};
			int l = strlen(ends[z]);
			memcpy(a+at[k], ends[z], l);
			char eol = 0;
			strview_t v = RV(a, n), r = strview_split_line(&v, z&1 ? &eol : NULL);
			VH_CHECK(r.data == a && r.size == at[k] && v.size == n-at[k]-l && v.data, "ending %d at %d of %d: line of %d, %d left", z, at[k], n, r.size, v.size);
			r = strview_split_line(&v, z&1 ? &eol : NULL);
			VH_CHECK(!r.data && v.size == n-at[k]-l, "no ending behind %d of %d", at[k], n);
			memcpy(a+at[k], "xx", l);
			vh->trans += 2;
		}
		free(a);
	}
	{
		unsigned char* u = malloc(5);
		TRIPLE_EACH(b)
		{
			VH_DESC("%s", vh_q(b, 3));
			VH_NONTRIV(1);
			u[0] = 'l'; memcpy(u+1, b, 3); u[4] = '\n';
			for(int k=0; k<3; k++)
			{
				char e1 = k == 2 ? '\r' : 0, e2 = e1;
				strview_t v = k == 1 ? RV((char*)u+1, 4) : k ? RV((char*)b, 3) : RV((char*)u, 5), w = v;
				for(int i=0; i<5; i++)
				{
					strview_t was = v, r = strview_split_line(&v, k ? &e1 : NULL), s = r_line(&w, &e2);
					if(!k) e2 = 0;
					VH_CHECK(rv_agree(r, s, was.data, was.data+was.size) && v.size == w.size && (!v.size || v.data == w.data), "source %s: got line %s, expected %s; %d characters left, expected %d", rv_str(was), rv_str(r), rv_str(s), v.size, w.size);
					vh->trans++;
					if(!s.data || !w.size) break;
				}
			}
		}
		free(u); free(b);
	}
	return vh_end();
}
