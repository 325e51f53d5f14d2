//	C09 chains of view operations: every reachable view of every short text, and unmerged sequences
#include "vh.h"
#include "refview.h"

typedef struct { strview_t res, rem; int ch; bool open; } out_t;
enum { SPLIT_F, SPLIT_FQ, SPLIT_L, SPLIT_LQ, SPLIT_2, SPLIT_L2, LINE, LINE_CR, LINE_LF, TRIM, TRIMS, TRIME, TRIMV, DEQ, POP, FINDF, FINDL, FINDN, FINDLN, LEFT, RIGHT, LEFTE, RIGHTB,
	IDX, IDX_N=IDX+8, SUB=IDX_N, SUB_N=SUB+12, NOPS=SUB_N };
static const int idx[8] = {-5,-2,-1,0,1,2,3,9};
static const int sub[12][2] = {{0,-1},{1,-1},{1,INT_MAX},{-2,INT_MAX},{-1,0},{0,1},{2,3},{-3,-1},{0,0},{3,2},{INT_MIN,2},{-1,INT_MAX}};

static bool bal(strview_t s) { int n=0; for(int i=0; i<s.size; i++) n += s.data[i] == '"'; return !(n&1); }

static out_t real_op(strview_t v, int op)
{
	out_t o = { RV_INVALID, v, 0, false };
	char e = op == LINE_CR ? '\r' : op == LINE_LF ? '\n' : 0;
	switch(op)
	{
		case SPLIT_F:	o.res = strview_split_first_delim(&o.rem, ",", false); break;
		case SPLIT_FQ:	o.res = strview_split_first_delim(&o.rem, ",", true); break;
		case SPLIT_L:	o.res = strview_split_last_delim(&o.rem, ",", false); break;
		case SPLIT_LQ:	o.res = strview_split_last_delim(&o.rem, ",", true); break;
		case SPLIT_2:	o.res = strview_split_first_delim(&o.rem, " a", false); break;
		case SPLIT_L2:	o.res = strview_split_last_delim(&o.rem, " \n", false); break;
		case LINE: case LINE_CR: case LINE_LF: o.res = strview_split_line(&o.rem, &e); break;
		case TRIM:		o.res = strview_trim(v, " \n"); break;
		case TRIMS:		o.res = strview_trim_start(v, " ,"); break;
		case TRIME:		o.res = strview_trim_end(v, "a\n"); break;
		case TRIMV:		o.res = strview_trim(v, strview_sub(v, 0, 1)); break;
		case DEQ:		o.res = strview_dequote(v); break;
		case POP:		o.ch = strview_pop_first_char(&o.rem); break;
		case FINDF:		o.res = strview_find_first(v, "a"); break;
		case FINDL:		o.res = strview_find_last(v, "a"); break;
		case FINDN:		o.res = strview_find_first_nocase(v, "A"); break;
		case FINDLN:	o.res = strview_find_last_nocase(v, ",A"); break;
		case LEFT:		o.res = strview_split_left(&o.rem, strview_find_first(v, ",")); break;
		case RIGHT:		o.res = strview_split_right(&o.rem, strview_find_last(v, "a")); break;
		case LEFTE:		o.res = strview_split_left(&o.rem, strview_find_last(v, "")); break;
		case RIGHTB:	o.res = strview_split_right(&o.rem, strview_find_first(v, "")); break;
		default:
			if(op < IDX_N) o.res = strview_split_index(&o.rem, idx[op-IDX]);
			else o.res = strview_sub(v, sub[op-SUB][0], sub[op-SUB][1]);
	}
	return o;
}
static strview_t rfind(strview_t v, const char* n, bool last, bool nc) { return r_find(v, RV(n, (int)strlen(n)), last, nc); }
static out_t ref_op(strview_t v, int op)
{
	out_t o = { RV_INVALID, v, 0, false };
	strview_t p;
	char e = op == LINE_CR ? '\r' : op == LINE_LF ? '\n' : 0;
	switch(op)
	{
		case SPLIT_F:	o.res = r_first_delim(&o.rem, ",", false); break;
		case SPLIT_FQ:	o.res = r_first_delim(&o.rem, ",", true); break;
		case SPLIT_L:	o.res = r_last_delim(&o.rem, ",", false); break;
		case SPLIT_LQ:	o.res = r_last_delim(&o.rem, ",", true); break;
		case SPLIT_2:	o.res = r_first_delim(&o.rem, " a", false); break;
		case SPLIT_L2:	o.res = r_last_delim(&o.rem, " \n", false); break;
		case LINE: case LINE_CR: case LINE_LF: o.res = r_line(&o.rem, &e); break;
		case TRIM:		o.res = r_trim(v, RV(" \n",2), 3); break;
		case TRIMS:		o.res = r_trim(v, RV(" ,",2), 1); break;
		case TRIME:		o.res = r_trim(v, RV("a\n",2), 2); break;
		case TRIMV:		o.res = r_trim(v, RV(v.data, v.size ? 1 : 0), 3); break;
		case DEQ:		o.res = r_dequote(v); break;
		case POP:		if(v.size) { o.ch = v.data[0]; o.rem = RV(v.data+1, v.size-1); } break;
		case FINDF:		o.res = rfind(v, "a", false, false); break;
		case FINDL:		o.res = rfind(v, "a", true, false); break;
		case FINDN:		o.res = rfind(v, "A", false, true); break;
		case FINDLN:	o.res = rfind(v, ",A", true, true); break;
		case LEFT:		p = rfind(v, ",", false, false); if(p.data) { o.res = RV(v.data, (int)(p.data-v.data)); o.rem = RV(p.data, v.size-o.res.size); } break;
		case RIGHT:		p = rfind(v, "a", true, false); if(p.data) { o.rem = RV(v.data, (int)(p.data-v.data)+1); o.res = RV(p.data+1, v.size-o.rem.size); } break;
		case LEFTE:		if(v.data) { o.res = v; o.rem = RV(v.data+v.size, 0); } break;
		case RIGHTB:	if(v.data) { o.res = v; o.rem = RV(v.data, 0); } break;
		default:
			if(op < IDX_N) o.res = r_split_index(&o.rem, idx[op-IDX]);
			else o.res = r_sub(v, sub[op-SUB][0], sub[op-SUB][1], &o.open);
	}
	return o;
}
//	one transition: real against reference. base,len: the original text
static out_t step(strview_t v, int op, const char* base, int len)
{
	out_t g = real_op(v, op), w = ref_op(v, op);
	vh->trans++;
	VH_CHECK(g.ch == w.ch, "op %d on %s returned character %d, expected %d", op, rv_str(v), g.ch, w.ch);
	if(w.open)
		VH_CHECK(g.res.size == 0 && (!g.res.data || (g.res.data >= base && g.res.data <= base+len)), "op %d on %s returned %s", op, rv_str(v), rv_str(g.res));
	else
		VH_CHECK(rv_agree(g.res, w.res, base, base+len), "op %d on %s returned %s, expected %s", op, rv_str(v), rv_str(g.res), rv_str(w.res));
	VH_CHECK(rv_agree(g.rem, w.rem, base, base+len), "op %d on %s left %s, expected %s", op, rv_str(v), rv_str(g.rem), rv_str(w.rem));
	VH_CHECK(!g.res.data || (g.res.data >= base && g.res.data+g.res.size <= base+len), "op %d on %s: result outside the text", op, rv_str(v));
	VH_CHECK(!g.rem.data || (g.rem.data >= base && g.rem.data+g.rem.size <= base+len), "op %d on %s: remainder outside the text", op, rv_str(v));
	return g;
}
static vh_slot_t whole, win;
#define MAXW 200
static void explore(const unsigned char* t, int n)
{
	//	views of the text in the order they are reached. The position of an empty view is kept.
	strview_t q[MAXW]; unsigned char dep[MAXW];
	int h = 0, k = 0, i, op;
	const char* base = vh_slot_set(&whole, t, n, 0);
	q[k] = RV(base, n); dep[k++] = 0;
	while(h < k)
	{
		strview_t v = q[h]; int d = dep[h++];
		vh->states++;
		if((unsigned)d > vh->maxdepth) vh->maxdepth = d;
		for(op=0; op<NOPS; op++)
		{
			out_t o = step(v, op, base, n);
			//	the same operation on a copy of just this view, with nothing around it, must do the same
			if(v.data)
			{
				strview_t c = RV(vh_slot_set(&win, v.data, v.size, 0), v.size);
				out_t x = step(c, op, c.data, c.size);
				VH_CHECK(x.res.size == o.res.size && x.rem.size == o.rem.size && !x.res.data == !o.res.data && !x.rem.data == !o.rem.data && (!x.res.size || x.res.data - c.data == o.res.data - v.data) && (!x.rem.size || x.rem.data - c.data == o.rem.data - v.data), "op %d on %s: different outcome on a separate copy", op, rv_str(v));
			}
			vh->traces++;
			for(int w=0; w<2; w++)
			{
				strview_t y = w ? o.rem : o.res;
				for(i=0; i<k; i++) if(q[i].data == y.data && q[i].size == y.size) break;
				if(i == k) { if(k == MAXW) abort(); q[k] = y; dep[k++] = d+1; }
			}
		}
	}
	VH_CHECK(!memcmp(base, t, n), "the text was modified to %s", vh_q(base, n));
}
//	unmerged sequences: each operation goes on with the remainder (or the result, if it has none)
static void seqs(strview_t v, const char* base, int n, int depth)
{
	if((unsigned)depth == 0) { vh->traces++; return; }
	for(int op=0; op<NOPS; op++)
	{
		out_t o = step(v, op, base, n);
		if(o.rem.data == v.data && o.rem.size == v.size)
			seqs(o.res, base, n, depth-1);
		else
		{
			seqs(o.rem, base, n, depth-1);
			if(o.res.size) seqs(o.res, base, n, depth-1);
		}
	}
}
int main(int argc, char** argv)
{
	static const unsigned char A[] = {',','a',' ','"','\n'}, A2[] = {0,'a',',',0xff,'\r'};
	static const char* T[] = { "a,\"a,a\",a\r\n", " \"'a'\" ,\n\ra", ",,a\n\n", "a", "", "'\"a\"',", "aaaa", "\"\"\"\"", " a , a \r\r\n" };
	unsigned char t[16];
	int n, N = vh_thorough ? 6 : 5;
	vh_init(argc, argv);
	N = vh_thorough ? 6 : 5;
	vh_slot_init(&whole, 64); vh_slot_init(&win, 64);
	vh_section("every view reachable from every short text");
	for(int al=0; al<2; al++) for(n=al; n<=N-al; n++)
		for(long k=0; k<vh_pow(5,n); k+=5)
		{
			if(!vh_slice()) continue;
			for(long j=k; j<k+5 && j<vh_pow(5,n); j++)
			{
				if(!vh_case()) continue;
				vh_text(t, j, n, al ? A2 : A, 5);
				VH_DESC("all views reachable from %s", vh_q(t,n));
				VH_NONTRIV(n);
				explore(t, n);
			}
		}
	vh_section("every view reachable from longer texts");
	for(n=0; n<9; n++)
	{
		if(!vh_slice()) continue;
		if(!vh_case()) continue;
		VH_DESC("all views reachable from %s", vh_q(T[n],strlen(T[n])));
		explore((void*)T[n], strlen(T[n]));
	}
	vh_section("unmerged sequences");
	for(n=0; n<9; n++) for(int op=0; op<NOPS; op++)
	{
		if(!vh_slice()) continue;
		if(!vh_case()) continue;
		int L = strlen(T[n]);
		const char* base = vh_slot_set(&whole, T[n], L, 0);
		VH_DESC("all sequences from %s starting with op %d", vh_q(T[n],L), op);
		VH_NONTRIV(1);
		out_t o = step(RV(base, L), op, base, L);
		seqs(o.rem.data == base && o.rem.size == L ? o.res : o.rem, base, L, vh_thorough ? 3 : 2);
		VH_CHECK(!memcmp(base, T[n], L), "the text was modified");
	}
	return vh_end();
}
