//	C11 edits with text taken from the buffer itself
#include "bufmodel.h"
#include "huge.h"
typedef struct { const m_t* m; } ctx_t;
static void one(const act_t* a, void* c)
{
	const m_t* m = ((ctx_t*)c)->m;
	//	views of a fixed buffer given to cat for itself are not promised anything but an empty buffer
	if(!vh_case()) return;
	VH_DESC("%s on %s", a_str(a), m_str(m));
	VH_NONTRIV(1);
	bm_step(m, a);
}
static src_t W[3000];
//	sequences of self edits
static act_t mk(int f, int size)
{
	src_t all = {S_INT,0,size}, first = {S_INT,0,size?1:0}, last = {S_INT,size?size-1:0,size?1:0}, mid = {S_INT,size/3,size/3}, tail = {S_INTC,size/2,size-size/2};
	switch(f)
	{
		case 0: return (act_t){.op=OP_APPEND,.n=1,.s={all}};
		case 1: return (act_t){.op=OP_PREPEND,.n=1,.s={tail}};
		case 2: return (act_t){.op=OP_INSERT,.idx=size/2,.n=1,.s={all}};
		case 3: return (act_t){.op=OP_INSERT,.idx=1,.n=1,.s={mid}};
		case 4: return (act_t){.op=OP_STRIP,.n=1,.s={last}};
		case 5: return (act_t){.op=OP_ASSIGN,.n=1,.s={{S_INT,size?1:0,size?size-1:0}}};
		case 6: return (act_t){.op=OP_CAT,.n=3,.s={last,mid,first}};
		case 7: return (act_t){.op=OP_BEFORE,.n=1,.s={mid},.doff=size/3,.dlen=size/3};
		case 8: return (act_t){.op=OP_AFTER,.n=1,.s={all},.doff=size/3,.dlen=size/3};
		case 9: return (act_t){.op=OP_SHRINK};
		default: return (act_t){.op=OP_APPEND,.n=1,.s={{S_EXT,0,2,(unsigned char*)"<>"}}};
	}
}
static void set_m(const m_t* m, void* c) { ((ctx_t*)c)->m = m; vh->states++; }
int main(int argc, char** argv)
{
	int n, kind, cap, k, L;
	static unsigned char t[70000];
	vh_init(argc, argv);
	bm_init(140000, 140000);
	chk = PROPCHK;
	L = vh_thorough ? 9 : 6;
	unsigned mask = OPALL & ~(1u<<OP_GROW | 1u<<OP_SHRINK | 1u<<OP_CHAR | 1u<<OP_VIEW);
	vh_section("every window of the content as source of every edit, all capacities");
	for(int form=0; form<2; form++) for(kind=0; kind<NB_KINDS; kind++) for(n=0; n<=L; n++) for(cap=n; cap<=2*n+2; cap++)
	{
		for(k=0; k<n; k++) t[k] = form ? (k*k+k/2)%3 ? 'a'+k%2 : 0 : 'A'+k;
		m_t m = {kind, cap, n, t};
		ctx_t c = {&m};
		int nw = own_windows(&m, W, true);
		if(!form) for(k=0; k<=n; k++) W[nw++] = (src_t){S_INTC, k, n-k};
		for(k=0; k<nw; k+=4)
		{
			if(!vh_slice()) continue;
			vh->states++;
			//	an empty view of itself may or may not count as a view of the buffer: left out of cat for fixed buffers
			each_action(&m, W+k, nw-k < 4 ? nw-k : 4, mask & ~(1u<<OP_CAT|1u<<OP_VCAT), false, one, &c);
		}
	}
	vh_section("cat: every mixture of two and three windows and outside texts");
	for(kind=0; kind<NB_KINDS; kind++) for(n=0; n<=(vh_thorough?5:4); n++) for(cap=n; cap<=3*n+1; cap++)
	{
		if(!vh_slice()) continue;
		for(k=0; k<n; k++) t[k] = 'A'+k;
		m_t m = {kind, cap, n, t};
		ctx_t c = {&m};
		int nw = 0;
		if(kind) nw = own_windows(&m, W, true);
		else for(k=0; k<n; k++) for(int l=1; k+l<=n; l++) W[nw++] = (src_t){S_INT, k, l};
		W[nw++] = (src_t){S_EXT, 0, 2, (unsigned char*)"xy"};
		W[nw++] = (src_t){S_EXT, 0, 0, (unsigned char*)"x"};
		W[nw++] = (src_t){S_INVALID};
		vh->states++;
		//	on a fixed buffer an oversized or self referring cat gives an empty buffer
		each_action(&m, W, nw, 1u<<OP_CAT|1u<<OP_VCAT, n <= 3 || vh_thorough, one, &c);
	}
	vh_section("long contents: windows at the borders, every kind of position");
	static const int len[] = {15,16,17,31,32,33,63,64,127,128,129,255,256,257,1000,32768,65537};
	for(int i=0; i<17; i++) for(kind=0; kind<NB_KINDS; kind++)
	{
		if(!vh_slice()) continue;
		n = len[i];
		for(k=0; k<n; k++) t[k] = (unsigned char)(k*7+k/256);
		int nw = 0, o[] = {0,1,n/2-1,n/2,n/2+1,n-2,n-1,n};
		for(int p=0; p<8; p++) for(int q=p; q<8; q++) if(n < 2000 || (p+q)%3 == 0) W[nw++] = (src_t){S_INT, o[p], o[q]-o[p]};
		for(int ci=0; ci<(n < 2000 ? 4 : 3); ci += n < 2000 ? 1 : 2)
		{
			cap = ci == 0 ? n : ci == 1 ? n + n/2 : ci == 2 ? 2*n-1 : 2*n;
			m_t m = {kind, cap, n, t};
			ctx_t c = {&m};
			vh->states++;
			for(int w=0; w<nw; w++)
			{
				for(int p=0; p<8; p += n < 2000 ? 1 : 3)
				{
					act_t a[] = { {.op=OP_INSERT,.idx=o[p],.n=1,.s={W[w]}}, {.op=OP_INSERT,.idx=o[p]-n,.n=1,.s={W[w]}}, {.op=OP_BEFORE,.doff=o[p],.dlen=0,.n=1,.s={W[w]}}, {.op=OP_AFTER,.doff=o[p]/2,.dlen=o[p]-o[p]/2,.n=1,.s={W[w]}} };
					for(k=0; k<4; k++) one(&a[k], &c);
				}
				act_t a[] = { {.op=OP_APPEND,.n=1,.s={W[w]}}, {.op=OP_PREPEND,.n=1,.s={W[w]}}, {.op=OP_ASSIGN,.n=1,.s={W[w]}}, {.op=OP_STRIP,.n=1,.s={W[w]}}, {.op=OP_CAT,.n=2,.s={W[w],W[(w*5+3)%nw]}}, {.op=OP_CAT,.n=3,.s={W[(w*7+1)%nw],{S_EXT,0,3,(unsigned char*)"+++"},W[w]}} };
				for(k=0; k<6; k++)
				{
					if(!kind && a[k].op == OP_CAT) continue;
					if(a[k].op == OP_STRIP && n > 2000 && W[w].len > 300) continue;
					one(&a[k], &c);
				}
			}
		}
	}
	vh_section("every two neighbouring bytes");
	for(int x=0; x<256; x++)
	{
		if(!vh_slice()) continue;
		for(int y=0; y<256; y++)
		{
			unsigned char u[4] = {x, y, y, x};
			kind = (x+y) % NB_KINDS;
			m_t m = {kind, 4 + (x*3+y)%5, 4, u};
			ctx_t c = {&m};
			src_t f = {S_INT,0,2}, g = {S_INT,1,2}, h = {S_INT,3,1}, e = {S_EXT,0,2,(unsigned char*)u};
			vh->states++;
			act_t a[] = { {.op=OP_APPEND,.n=1,.s={f}}, {.op=OP_PREPEND,.n=1,.s={g}}, {.op=OP_INSERT,.idx=2,.n=1,.s={g}}, {.op=OP_INSERT,.idx=-1,.n=1,.s={h}}, {.op=OP_BEFORE,.doff=1,.dlen=2,.n=1,.s={h}}, {.op=OP_AFTER,.doff=1,.dlen=2,.n=1,.s={f}},
				{.op=OP_ASSIGN,.n=1,.s={g}}, {.op=OP_STRIP,.n=1,.s={h}}, {.op=OP_CAT,.n=2,.s={g,f}}, {.op=OP_VCAT,.n=3,.s={h,e,f}} };
			for(k=0; k<(kind ? 10 : 8); k++) one(&a[k], &c);
		}
	}
	vh_section("unmerged histories of self edits");
	for(kind=0; kind<NB_KINDS; kind++) for(cap=0; cap<4; cap++) for(int f0=0; f0<11; f0++)
	{
		int D = vh_thorough ? 5 : 4, s[8] = {0};
		if(!vh_slice()) continue;
		do
		{
			static unsigned char cur[M_MAX];
			bool valid, mincap;
			if(!vh_case()) continue;
			VH_DESC("self edits %d %d %d %d on a %s buffer", f0, s[0], s[1], s[2], kind ? "dynamic" : "fixed");
			VH_NONTRIV(1);
			m_t m = {kind, cap == 0 ? 3 : cap == 1 ? 12 : cap == 2 ? 30 : 200, 3, cur}, w = {.b=bm_w};
			memcpy(cur, "abc", 3);
			strbuf_t* b = bm_make(&m), *was;
			for(int i=0; i<D; i++)
			{
				act_t a = mk(i ? s[i-1] : f0, m.size);
				if(!kind && a.op == OP_CAT) break;
				m_apply(&m, &a, &w, &valid, &mincap);
				was = b;
				strview_t r = bm_call(&b, &a);
				vh->trans++;
				bm_judge(&b, was, r, &m, &a, &w, valid, mincap);
				memcpy(cur, w.b, w.size); m.size = w.size; m.cap = b->capacity;
			}
			vh->traces++;
			if((unsigned long)D > vh->maxdepth) vh->maxdepth = D;
		}while(vh_next(s, D-1, 11));
	}
	vh_section("cat of up to 16 views");
	{ ctx_t c; cat_many(true, NB_KINDS, one, set_m, &c); }
	HUGE_EACH(i)
	{
		int n = HZ[i], j;
		char* a = huge_text(n, 'x'), * e = malloc(4L*n+8), * mem = malloc(sizeof(strbuf_t) + 2L*n + 9);
		a[0] = 'a'; a[n/3] = 'm'; a[n/2] = 'h'; a[n-1] = 'z';
		strview_t v = {a, n}, r;
		VH_DESC("own texts of %d", n);
		VH_NONTRIV(1);
		#define HOLD2(what, size_) VH_CHECK(b && b->size == (size_) && r.data == b->cstr && r.size == b->size && !b->cstr[b->size] && !memcmp(b->cstr, e, size_), what " with own text of %d characters is wrong", n)
		for(j=0; j<2; j++)
		{
			strbuf_t* b = j ? strbuf_create_fixed(mem, sizeof(strbuf_t) + 2L*n + 9) : strbuf_create(0, NULL);
			r = strbuf_assign(&b, v); memcpy(e, a, n);
			r = strbuf_append(&b, strbuf_view(&b)); memcpy(e+n, a, n); HOLD2("append", 2*n);
			r = strbuf_assign(&b, strview_sub(strbuf_view(&b), n/2, n/2+n)); memmove(e, e+n/2, n); HOLD2("assign", n);
			r = strbuf_insert_at_index(&b, n/3, strview_sub(strbuf_view(&b), n/4, n)); memmove(e+n/3+n-n/4, e+n/3, n-n/3); memcpy(e+n/3, a+n/2+n/4 > a+n ? a+n/2+n/4-n : a+n/2+n/4, n - n/2 - n/4); memcpy(e+n/3+n-n/2-n/4, a, n/2); HOLD2("insert", n+n-n/4);
			r = strbuf_assign(&b, v); memcpy(e, a, n);
			r = strbuf_prepend(&b, strview_sub(strbuf_view(&b), n/2, INT_MAX)); memcpy(e, a+n/2, n-n/2); memcpy(e+n-n/2, a, n); HOLD2("prepend", n+n-n/2);
			r = strbuf_insert_after(&b, strview_sub(strbuf_view(&b), 5, 10), strview_sub(strbuf_view(&b), 3, 8)); char five[5]; memcpy(five, e+3, 5); memmove(e+15, e+10, n+n-n/2-10); memcpy(e+10, five, 5); HOLD2("insert_after", n+n-n/2+5);
			if(!j) { r = strbuf_assign(&b, v); strview_t w = strbuf_view(&b); r = strbuf_cat(&b, strview_sub(w, n/2, INT_MAX), cstr("-"), w); memcpy(e, a+n/2, n-n/2); e[n-n/2] = '-'; memcpy(e+n-n/2+1, a, n); HOLD2("cat", n-n/2+1+n); strbuf_destroy(&b); }
			vh->trans += 7;
		}
		free(a); free(e); free(mem);
	}
	return vh_end();
}
