//	C10 buffer edits against plain byte strings
#include "bufmodel.h"
#include "triple.h"
#include "huge.h"

static const unsigned char* ext_texts[64]; static int ext_lens[64], next_;
static src_t ES[64]; static int nES;
static void make_ext(int maxlen)
{
	static unsigned char pool[64][8];
	for(int n=0; n<=maxlen; n++) for(long k=0; k<vh_pow(2,n); k++)
	{
		vh_text(pool[next_], k, n, (const unsigned char*)"ab", 2);
		ES[nES++] = (src_t){S_EXT, 0, n, pool[next_]};
		if(n < 2) ES[nES++] = (src_t){S_CSTR, 0, n, pool[next_]};
		next_++;
	}
	ES[nES++] = (src_t){S_INVALID};
}
typedef struct { const m_t* m; } ctx_t;
static void one(const act_t* a, void* c)
{
	const m_t* m = ((ctx_t*)c)->m;
	if(!vh_case()) return;
	VH_DESC("%s on %s", a_str(a), m_str(m));
	VH_NONTRIV(1);
	bm_step(m, a);
}
//	histories: every sequence of actions, the buffer and the model going on from step to step
static act_t H[64]; static int nH;
static void hist_actions(void)
{
	static const unsigned char t[3][24] = {"x", "yz", "0123456789abcdefgh"};
	src_t a = {S_EXT,0,1,t[0]}, b = {S_EXT,0,2,t[1]}, c = {S_EXT,0,18,t[2]}, inv = {S_INVALID};
	H[nH++] = (act_t){.op=OP_ASSIGN,.n=1,.s={b}};
	H[nH++] = (act_t){.op=OP_ASSIGN,.n=1,.s={inv}};
	H[nH++] = (act_t){.op=OP_APPEND,.n=1,.s={a}};
	H[nH++] = (act_t){.op=OP_APPEND,.n=1,.s={c}};
	H[nH++] = (act_t){.op=OP_PREPEND,.n=1,.s={b}};
	H[nH++] = (act_t){.op=OP_INSERT,.idx=1,.n=1,.s={b}};
	H[nH++] = (act_t){.op=OP_INSERT,.idx=-1,.n=1,.s={c}};
	H[nH++] = (act_t){.op=OP_STRIP,.n=1,.s={a}};
	H[nH++] = (act_t){.op=OP_CAT,.n=3,.s={a,b,a}};
	H[nH++] = (act_t){.op=OP_CHAR,.idx='q'};
	H[nH++] = (act_t){.op=OP_GROW,.idx=40};
	H[nH++] = (act_t){.op=OP_SHRINK};
	H[nH++] = (act_t){.op=OP_BEFORE,.n=1,.s={a},.doff=0,.dlen=0};
	H[nH++] = (act_t){.op=OP_STRIP,.n=1,.s={c}};
}
static void history(int kind, int cap, const int* seq, int n)
{
	static unsigned char cur[M_MAX];
	m_t m = {kind, cap, 0, cur}, w = {.b = bm_w};
	bool valid, mincap;
	strbuf_t* b = bm_make(&m), *was;
	for(int i=0; i<n; i++)
	{
		const act_t* a = &H[seq[i]];
		m_apply(&m, a, &w, &valid, &mincap);
		was = b;
		strview_t r = bm_call(&b, a);
		vh->trans++;
		bm_judge(&b, was, r, &m, a, &w, valid, mincap);
		memcpy(cur, w.b, w.size); m.size = w.size; m.cap = b->capacity;
	}
	vh->traces++;
	if((unsigned long)n > vh->maxdepth) vh->maxdepth = n;
}
static void set_m(const m_t* m, void* c) { ((ctx_t*)c)->m = m; vh->states++; }
int main(int argc, char** argv)
{
	static const unsigned char A[] = {'a','b'};
	unsigned char t[16];
	int n, k, kind, cap, L, C;
	static unsigned char big[3000], bigc[3000];
	vh_init(argc, argv);
	bm_init(70000, 140000);
	chk = PROPCHK;
	make_ext(vh_thorough ? 3 : 2);
	L = vh_thorough ? 5 : 4; C = vh_thorough ? 9 : 7;
	vh_section("every action in every state: short contents, all capacities");
	for(kind=0; kind<NB_KINDS; kind++) for(n=0; n<=L; n++) for(cap=n; cap<=C; cap++) for(long j=0; j<vh_pow(2,n); j++)
	{
		if(!vh_slice()) continue;
		vh_text(t, j, n, A, 2);
		m_t m = {kind, cap, n, t};
		ctx_t c = {&m};
		vh->states++;
		each_action(&m, ES, nES, OPALL, false, one, &c);
	}
	vh_section("cat of three: short contents");
	for(kind=0; kind<NB_KINDS; kind++) for(n=0; n<=2; n++) for(cap=n; cap<=C; cap++)
	{
		if(!vh_slice()) continue;
		vh_text(t, 1, n, A, 2);
		m_t m = {kind, cap, n, t};
		ctx_t c = {&m};
		vh->states++;
		each_action(&m, ES, nES, 1u<<OP_CAT, true, one, &c);
	}
	vh_section("unmerged histories");
	hist_actions();
	for(kind=0; kind<NB_KINDS; kind++) for(int ci=0; ci<3; ci++) for(int a0=0; a0<nH; a0++)
	{
		int D = vh_thorough ? 5 : 4, s[8] = {0};
		if(!vh_slice()) continue;
		do
		{
			int q[8]; q[0] = a0; for(k=1; k<D; k++) q[k] = s[k-1];
			if(!vh_case()) continue;
			cap = ci == 0 ? 0 : ci == 1 ? 5 : 21;
			VH_DESC("%s, %s, %s, %s on a %s buffer of %d", op_name[H[q[0]].op], op_name[H[q[1]].op], op_name[H[q[2]].op], op_name[H[q[3]].op], kind ? "dynamic" : "fixed", cap);
			VH_NONTRIV(1);
			history(kind, cap, q, D);
		}while(vh_next(s, D-1, nH));
	}
	vh_section("content and source lengths around powers of two");
	for(k=0; k<3000; k++) { big[k] = (unsigned char)(k*37 + k/256); bigc[k] = (unsigned char)(~(k*11)); }
	static const int len[] = {0,1,2,7,8,9,15,16,17,31,32,33,47,48,49,63,64,65,100,126,127,128,129,130,254,255,256,257,258,511,512,513,1000,1023,1024,1025};
	int NL = sizeof(len)/sizeof(*len);
	for(int i=0; i<NL; i++) for(int j=0; j<NL; j++)
	{
		if(!vh_slice()) continue;
		for(kind=0; kind<NB_KINDS; kind++) for(int ci=0; ci<4; ci++)
		{
			cap = ci == 0 ? len[i] : ci == 1 ? len[i]+len[j] : ci == 2 ? len[i]+len[j]-1 : len[i]+len[j]+1;
			if(cap < len[i]) continue;
			m_t m = {kind, cap, len[i], big};
			ctx_t c = {&m};
			src_t s = {S_EXT, 0, len[j], bigc};
			act_t a[] = { {.op=OP_ASSIGN,.n=1,.s={s}}, {.op=OP_APPEND,.n=1,.s={s}}, {.op=OP_PREPEND,.n=1,.s={s}}, {.op=OP_INSERT,.idx=len[i]/2,.n=1,.s={s}}, {.op=OP_INSERT,.idx=-1,.n=1,.s={s}},
				{.op=OP_INSERT,.idx=len[i]-1,.n=1,.s={s}}, {.op=OP_BEFORE,.doff=len[i]/3,.dlen=len[i]/4,.n=1,.s={s}}, {.op=OP_AFTER,.doff=len[i]/3,.dlen=len[i]/4,.n=1,.s={s}}, {.op=OP_STRIP,.n=1,.s={s}}, {.op=OP_CAT,.n=2,.s={s,s}},
				{.op=OP_GROW,.idx=len[j]}, {.op=OP_SHRINK}, {.op=OP_CHAR,.idx=200} };
			vh->states++;
			for(k=0; k<(int)(sizeof(a)/sizeof(*a)); k++) one(&a[k], &c);
		}
	}
	vh_section("lengths beyond 16 bits");
	static unsigned char hb[70000], hc[70000];
	for(k=0; k<70000; k++) { hb[k] = (unsigned char)(k*37 + k/256); hc[k] = (unsigned char)(~(k*11) + k/999); }
	static const int H[] = {0,5,4096,32767,32768,65535,65536,65537};
	for(int i=0; i<8; i++) for(int j=0; j<8; j++)
	{
		if(!vh_slice()) continue;
		if(i < 3 && j < 3) continue;
		for(kind=0; kind<NB_KINDS; kind++) for(int ci=0; ci<3; ci++)
		{
			cap = ci == 0 ? H[i] : ci == 1 ? H[i]+H[j] : H[i]+H[j]-1;
			if(cap < H[i]) continue;
			m_t m = {kind, cap, H[i], hb};
			ctx_t c = {&m};
			src_t s = {S_EXT, 0, H[j], hc}, few = {S_EXT, 0, j, hc};
			act_t a[] = { {.op=OP_ASSIGN,.n=1,.s={s}}, {.op=OP_APPEND,.n=1,.s={s}}, {.op=OP_PREPEND,.n=1,.s={s}}, {.op=OP_INSERT,.idx=H[i]/2,.n=1,.s={s}}, {.op=OP_INSERT,.idx=-1,.n=1,.s={s}},
				{.op=OP_INSERT,.idx=H[i]-1,.n=1,.s={s}}, {.op=OP_INSERT,.idx=-H[i]+7,.n=1,.s={s}}, {.op=OP_BEFORE,.doff=H[i]/3,.dlen=H[i]/4,.n=1,.s={s}}, {.op=OP_AFTER,.doff=H[i]/3,.dlen=H[i]/4,.n=1,.s={s}}, {.op=OP_STRIP,.n=1,.s={few}}, {.op=OP_CAT,.n=2,.s={s,few}},
				{.op=OP_GROW,.idx=H[j]}, {.op=OP_SHRINK}, {.op=OP_CHAR,.idx=200} };
			vh->states++;
			for(k=0; k<(int)(sizeof(a)/sizeof(*a)); k++) one(&a[k], &c);
		}
	}
	vh_section("strip: every byte and every set size");
	for(int b=0; b<256; b++)
	{
		if(!vh_slice()) continue;
		for(kind=0; kind<2; kind++) for(n=0; n<=16; n++)
		{
			unsigned char all[256], set[256];
			for(k=0; k<256; k++) { all[k] = (unsigned char)(k*5+b); set[k] = (unsigned char)(b + k*13); }
			m_t m = {kind, 256+n, 256, all};
			ctx_t c = {&m};
			src_t s = {S_EXT, 0, n == 16 ? 256 : n, set};
			act_t a = {.op=OP_STRIP,.n=1,.s={s}};
			vh->states++;
			one(&a, &c);
			//	runs of the byte at the start, the end, in between
			unsigned char rt[12]; int rn = 0;
			for(k=0; k<4; k++) { if(n >> k & 1) { rt[rn++] = b; rt[rn++] = b; } rt[rn++] = b+1+k; }
			m_t m2 = {kind, 12, rn > 12 ? 12 : rn, rt};
			ctx_t c2 = {&m2};
			src_t s2 = {S_EXT, 0, 1, all + 0};
			unsigned char one_b = b; s2.ext = &one_b;
			act_t a2 = {.op=OP_STRIP,.n=1,.s={s2}};
			one(&a2, &c2);
			act_t a3 = {.op=OP_CHAR,.idx=b};
			one(&a3, &c2);
		}
	}
	vh_section("every two neighbouring bytes where texts meet");
	for(int x=0; x<256; x++)
	{
		if(!vh_slice()) continue;
		for(int y=0; y<256; y++) for(int f=0; f<4; f++)
		{
			//	content ends with, or is, x y; the source begins with y or x
			unsigned char cont[4] = {'p', x, y, 'q'}, ext[2] = {f & 1 ? x : y, f & 2 ? x : y};
			int n = f == 0 ? 2 : f == 1 ? 3 : f == 2 ? 2 : 1;
			kind = (x+y+f) % 2 ? K_MOVE : K_FIXED;
			m_t m = {kind, 4 + (f & 1)*2, n, f == 0 || f == 3 ? cont+1 : cont};
			ctx_t c = {&m};
			src_t s = {S_EXT, 0, 1 + (f >> 1), ext}, z = {S_EXT, 0, 1, ext};
			vh->states++;
			act_t a[] = { {.op=OP_ASSIGN,.n=1,.s={s}}, {.op=OP_APPEND,.n=1,.s={s}}, {.op=OP_PREPEND,.n=1,.s={s}}, {.op=OP_INSERT,.idx=1,.n=1,.s={s}}, {.op=OP_INSERT,.idx=-1,.n=1,.s={z}},
				{.op=OP_BEFORE,.doff=n-1,.dlen=1,.n=1,.s={s}}, {.op=OP_AFTER,.doff=0,.dlen=n,.n=1,.s={s}}, {.op=OP_STRIP,.n=1,.s={z}}, {.op=OP_CAT,.n=2,.s={z,s}}, {.op=OP_VCAT,.n=3,.s={s,z,z}}, {.op=OP_CHAR,.idx=ext[0]}, {.op=OP_CHAR,.idx=ext[1]} };
			for(k=0; k<(int)(sizeof(a)/sizeof(*a)); k++) one(&a[k], &c);
		}
	}
	vh_section("strip: no character of a set has a meaning of its own");
	for(int x=0; x<256; x++)
	{
		if(!vh_slice()) continue;
		for(int y=0; y<256+36; y++)
		{
			static const unsigned char ends[][2] = {{'0','9'},{'a','c'},{'A','z'},{1,255},{'9','0'},{' ',' '},{'[',']'},{'n','t'},{'d','s'}};
			unsigned char all[256], set[3] = {x, y};
			int q = y - 256;
			if(q >= 0)
			{
				unsigned char lo = ends[q>>2][0], hi = ends[q>>2][1];
				set[0] = q&3 ? x : lo; set[1] = (q&3) == 0 ? x : (q&3) == 3 ? hi : lo; set[2] = (q&3) == 3 ? x : hi;
			}
			for(k=0; k<256; k++) all[k] = (unsigned char)(k*5+y);
			m_t m = {y & 1 ? K_STAY : K_FIXED, 256 + (y&2), 256, all};
			ctx_t c = {&m};
			src_t s = {S_EXT, 0, q < 0 ? 2 : 3, set};
			act_t a = {.op=OP_STRIP,.n=1,.s={s}};
			vh->states++;
			one(&a, &c);
		}
	}
	vh_section("cat of many views");
	for(n=1; n<=5; n++) for(kind=0; kind<NB_KINDS; kind++)
	{
		if(!vh_slice()) continue;
		int d[5] = {0};
		do for(cap=0; cap<9; cap++)
		{
			m_t m = {kind, cap < 2 ? 2 : cap, 2, (unsigned char*)"zz"};
			ctx_t c = {&m};
			act_t a = {.op = n&1 ? OP_CAT : OP_VCAT, .n=n};
			for(k=0; k<n; k++) a.s[k] = d[k] == 0 ? (src_t){S_INVALID} : (src_t){S_EXT, 0, d[k]-1, (unsigned char*)"pqr"+k%2};
			one(&a, &c);
		}while(vh_next(d, n, vh_thorough ? 5 : 4));
	}
	vh_section("cat of up to 16 views");
	{ ctx_t c; cat_many(false, NB_KINDS, one, set_m, &c); }
	HUGE_EACH(i)
	{
		int n = HZ[i], j;
		char* a = huge_text(n+1, 'x');
		a[n] = 0; a[n-1] = 'z'; a[0] = 'a'; a[n/2] = 'm';
		strview_t v = {a, n}, r;
		strbuf_t* b = strbuf_create(0, NULL);
		VH_DESC("edits with a text of %d", n);
		VH_NONTRIV(1);
		#define HOLD2(what, size_, expr) VH_CHECK(b && b->size == (size_) && r.data == b->cstr && r.size == b->size && !b->cstr[b->size] && (expr), what " of %d characters is wrong", n)
		r = strbuf_assign(&b, v); HOLD2("assign", n, !memcmp(b->cstr, a, n));
		r = strbuf_append(&b, v); HOLD2("append", 2*n, !memcmp(b->cstr, a, n) && !memcmp(b->cstr+n, a, n));
		r = strbuf_prepend(&b, "12345"); HOLD2("prepend to twice", 2*n+5, !memcmp(b->cstr, "12345", 5) && !memcmp(b->cstr+5, a, n) && !memcmp(b->cstr+5+n, a, n));
		r = strbuf_insert_at_index(&b, n+5, ((strview_t){"ab", 2})); HOLD2("insert behind", 2*n+7, !memcmp(b->cstr+5, a, n) && !memcmp(b->cstr+5+n, "ab", 2) && !memcmp(b->cstr+7+n, a, n));
		r = strbuf_insert_at_index(&b, -n, "c"); HOLD2("insert before the last", 2*n+8, b->cstr[7+n] == 'c' && !memcmp(b->cstr+8+n, a, n));
		r = strbuf_insert_before(&b, ((strview_t){b->cstr+8+n, 1}), "d"); HOLD2("insert_before", 2*n+9, b->cstr[8+n] == 'd' && !memcmp(b->cstr+9+n, a, n));
		r = strbuf_insert_after(&b, ((strview_t){b->cstr+7+n, 2}), "e"); HOLD2("insert_after", 2*n+10, b->cstr[9+n] == 'e' && !memcmp(b->cstr+10+n, a, n));
		r = strbuf_strip(&b, "123cdem"); HOLD2("strip", 2*n+2, !memcmp(b->cstr, "45a", 3) && b->cstr[n] == 'z' && !memcmp(b->cstr+n+1, "aba", 3) && b->cstr[2*n+1] == 'z');
		r = strbuf_cat(&b, v, cstr("-"), v, cstr("+")); HOLD2("cat", 2*n+2, !memcmp(b->cstr, a, n) && b->cstr[n] == '-' && !memcmp(b->cstr+n+1, a, n) && b->cstr[2*n+1] == '+');
		r = strbuf_assign(&b, cstr(a)); r = strbuf_append_char(&b, '!'); HOLD2("append_char", n+1, !memcmp(b->cstr, a, n) && b->cstr[n] == '!');
		r = strbuf_shrink(&b); HOLD2("shrink", n+1, !memcmp(b->cstr, a, n) && b->cstr[n] == '!');
		r = strbuf_grow(&b, 2*n); HOLD2("grow", n+1, !memcmp(b->cstr, a, n) && b->cstr[n] == '!');
		r = strbuf_insert_at_index(&b, 1, strbuf_view(&b)); HOLD2("insert of itself", 2*n+2, b->cstr[0] == 'a' && !memcmp(b->cstr+1, a, n) && b->cstr[n+1] == '!' && !memcmp(b->cstr+n+2, a+1, n-1) && b->cstr[2*n+1] == '!');
		strbuf_destroy(&b);
		b = strbuf_create(v, NULL); r = strbuf_view(&b); HOLD2("create", n, !memcmp(b->cstr, a, n));
		strbuf_destroy(&b);
		for(j=0; j<3; j++)
		{
			size_t room = sizeof(strbuf_t) + n + 1 + j-1;
			char* mem = malloc(room);
			b = strbuf_create_fixed(mem, room);
			int fits = n <= n+j-1;
			r = strbuf_assign(&b, v); HOLD2("assign to a fixed buffer", fits ? n : 0, !fits || !memcmp(b->cstr, a, n));
			r = strbuf_assign(&b, ((strview_t){a, n/2})); r = strbuf_append(&b, ((strview_t){a+n/2, n-n/2})); HOLD2("append to a fixed buffer", fits ? n : 0, !fits || !memcmp(b->cstr, a, n));
			free(mem);
		}
		vh->trans += 18;
		free(a);
	}
	{
		static char fx[sizeof(strbuf_t)+40] __attribute__((aligned(16)));
		TRIPLE_EACH(b)
		{
			VH_DESC("%s", vh_q(b, 3));
			VH_NONTRIV(1);
			strview_t v = {(char*)b, 3}, r;
			char e[20];
			int n = 0;
			strbuf_t* f = strbuf_create_fixed(fx, sizeof(fx));
			#define HOLD3(what, txt, len) VH_CHECK(f && f->size == (len) && r.data == f->cstr && r.size == f->size && !f->cstr[f->size] && !memcmp(f->cstr, txt, len) && !memcmp(b, z, 3), what " with %s gave %s", vh_q(z, 3), vh_q(f->cstr, f->size))
			char z[4] = {b[0], b[1], b[2], 0};
			r = strbuf_assign(&f, v); HOLD3("assign", z, 3);
			r = strbuf_append(&f, v); memcpy(e, z, 3); memcpy(e+3, z, 3); HOLD3("append", e, 6);
			r = strbuf_insert_at_index(&f, 4, "x"); e[7] = e[5]; memcpy(e+5, z+1, 2); memcpy(e, z, 3); e[3] = z[0]; e[4] = 'x'; e[5] = z[1]; e[6] = z[2]; HOLD3("insert", e, 7);
			r = strbuf_prepend(&f, v); memmove(e+3, e, 7); memcpy(e, z, 3); HOLD3("prepend", e, 10);
			r = strbuf_strip(&f, "/:"); for(int i=0; i<10; i++) if(e[i] != '/' && e[i] != ':') e[n++] = e[i]; HOLD3("strip", e, n);
			r = strbuf_assign(&f, cstr("abcABC/:")); r = strbuf_append_char(&f, z[0]); r = strbuf_append_char(&f, z[1]); memcpy(e, "abcABC/:", 8); e[8] = z[0]; e[9] = z[1]; HOLD3("append_char", e, 10);
			r = strbuf_strip(&f, v); n = 0; for(int i=0; i<10; i++) if(!memchr(z, e[i], 3)) e[n++] = e[i]; HOLD3("strip", e, n);
			r = strbuf_cat(&f, v, cstr("-"), v); memcpy(e, z, 3); e[3] = '-'; memcpy(e+4, z, 3); HOLD3("cat", e, 7);
			vh->trans += 10;
		}
		free(b);
	}
	return vh_end();
}
