/*	C33 the macros of the public headers: every macro x every kind and form of argument, strbuf_cat of every number of views,
	strnum_value for every destination type. A macro must give what the operation it stands for gives, evaluate each argument
	once, and be usable like a function call. */
#include "vh.h"
#include <errno.h>
#include <math.h>
#include "strbuf.h"
#include "strnum.h"
#include "arena.h"
#include "refview.h"

static vh_slot_t sh, sn;
static int ev1, ev2, ev3;	// evaluations of the arguments
static strview_t hay, ndl;
static strbuf_t* B; static strbuf_t** BP;
static strview_t hay_f(void) { ev1++; return hay; }
static strview_t view_f(void) { ev2++; return ndl; }
static const char* cstr_f(void) { ev2++; return ndl.data; }
static char* mstr_f(void) { ev2++; return (char*)ndl.data; }
static strbuf_t** buf_f(void) { ev1++; return BP; }
static int idx_v; static int idx_f(void) { ev3++; return idx_v; }
static strview_t pos_v; static strview_t pos_f(void) { ev3++; return pos_v; }
typedef struct { int pad; const char* c; char* m; strview_t v; const strview_t cv; } holder_t;

//	second argument: 16 forms. CALL(first, second, number of evaluations expected of the first, of the second)
#define NFORM 16
#define FORMS(form, first, nfirst, CALL) \
	switch(form) \
	{ \
		case 0: { const char* x = ndl.data; CALL(first, x, nfirst, 0); break; } \
		case 1: { char* x = (char*)ndl.data; CALL(first, x, nfirst, 0); break; } \
		case 2: { char x[16]; memcpy(x, ndl.data, ndl.size+1); CALL(first, x, nfirst, 0); break; } \
		case 3: { const char x[16] = {ndl.data[0], ndl.size > 0 ? ndl.data[1] : 0, ndl.size > 1 ? ndl.data[2] : 0, ndl.size > 2 ? ndl.data[3] : 0}; CALL(first, x, nfirst, 0); break; } \
		case 4: { strview_t x = ndl; CALL(first, x, nfirst, 0); break; } \
		case 5: { const strview_t x = ndl; CALL(first, x, nfirst, 0); break; } \
		case 6: CALL(first, view_f(), nfirst, 1); break; \
		case 7: CALL(first, cstr_f(), nfirst, 1); break; \
		case 8: CALL(first, mstr_f(), nfirst, 1); break; \
		case 9: CALL(first, ndl.size ? view_f() : STRVIEW_INVALID.data ? hay : view_f(), nfirst, 1); break; \
		case 10: CALL(first, (ev2++, ndl), nfirst, 1); break; \
		case 11: { const char* x[3] = {"?", ndl.data, "!"}; int i = 1; CALL(first, x[i++], nfirst, 0); VH_CHECK(i == 2, "an argument x[i++] was evaluated %d times", i-1); break; } \
		case 12: { strview_t x[3] = {cstr("?"), ndl, cstr("!")}, *p = x+1; CALL(first, *p++, nfirst, 0); VH_CHECK(p == x+2, "an argument *p++ was evaluated %d times", (int)(p-x)-1); break; } \
		case 13: { holder_t h = {0, NULL, (char*)ndl.data, ndl, ndl}, *p = &h; CALL(first, p->cv, nfirst, 0); CALL(first, (&h)->m, nfirst, 0); break; } \
		case 14: { const char* y; CALL(first, y = ndl.data, nfirst, 0); break; } \
		case 15: CALL(first, ((strview_t){.data = ndl.data, .size = (ev2++, ndl.size)}), nfirst, 1); break; \
	}
static const char* FORM[NFORM] = {"const char*", "char*", "char array", "const char array", "view", "const view", "call giving a view", "call giving a const char*", "call giving a char*",
	"conditional", "comma expression", "x[i++]", "*p++", "member", "assignment", "compound literal"};
static const char *cur_macro, *cur_form;
static void __attribute__((noinline)) check_ev(int n1, int n2)
{
	VH_CHECK(ev1 == n1, "%s, argument 2 a %s: its first argument was evaluated %d times instead of %d", cur_macro, cur_form, ev1, n1);
	VH_CHECK(ev2 == n2, "%s, argument 2 a %s: it was evaluated %d times instead of %d", cur_macro, cur_form, ev2, n2);
	ev1 = ev2 = 0;
}
static strview_t want_v; static bool want_b; static int neval;
static void __attribute__((noinline)) got_b(bool r) { neval++; VH_CHECK(r == want_b, "%s(%s, %s) with argument 2 a %s gives %d, must be %d", cur_macro, rv_str(hay), rv_str(ndl), cur_form, r, want_b); }
static void __attribute__((noinline)) got_v(strview_t r) { neval++; VH_CHECK(rv_agree(r, want_v, hay.data, hay.data+hay.size), "%s(%s, %s) with argument 2 a %s gives %s, must be %s", cur_macro, rv_str(hay), rv_str(ndl), cur_form, rv_str(r), rv_str(want_v)); }

#define FIRSTS(nm, form, CALL) do{ strview_t fv = hay, *fp = &fv; const strview_t fc = hay; cur_macro = #nm; \
	FORMS(form, hay_f(), 1, CALL) FORMS(form, fc, 0, CALL) FORMS(form, *fp, 0, CALL) FORMS(form, neval >= 0 ? fv : ndl, 0, CALL) }while(0)
//	separate functions keep the compile time down
#define CALL_IS_MATCH(a, b, n1, n2) got_b(strview_is_match(a, b)); check_ev(n1, n2)
#define CALL_IS_MATCH_NC(a, b, n1, n2) got_b(strview_is_match_nocase(a, b)); check_ev(n1, n2)
#define CALL_STARTS(a, b, n1, n2) got_b(strview_starts_with(a, b)); check_ev(n1, n2)
#define CALL_STARTS_NC(a, b, n1, n2) got_b(strview_starts_with_nocase(a, b)); check_ev(n1, n2)
#define CALL_TRIM(a, b, n1, n2) got_v(strview_trim(a, b)); check_ev(n1, n2)
#define CALL_TRIM_S(a, b, n1, n2) got_v(strview_trim_start(a, b)); check_ev(n1, n2)
#define CALL_TRIM_E(a, b, n1, n2) got_v(strview_trim_end(a, b)); check_ev(n1, n2)
#define CALL_FF(a, b, n1, n2) got_v(strview_find_first(a, b)); check_ev(n1, n2)
#define CALL_FFN(a, b, n1, n2) got_v(strview_find_first_nocase(a, b)); check_ev(n1, n2)
#define CALL_FL(a, b, n1, n2) got_v(strview_find_last(a, b)); check_ev(n1, n2)
#define CALL_FLN(a, b, n1, n2) got_v(strview_find_last_nocase(a, b)); check_ev(n1, n2)
static void m_match(int f)  { want_b = hay.size == ndl.size && r_same(hay.data, ndl.data, ndl.size, false); FIRSTS(strview_is_match, f, CALL_IS_MATCH); }
static void m_matchn(int f) { want_b = hay.size == ndl.size && r_same(hay.data, ndl.data, ndl.size, true); FIRSTS(strview_is_match_nocase, f, CALL_IS_MATCH_NC); }
static void m_starts(int f) { want_b = hay.size >= ndl.size && r_same(hay.data, ndl.data, ndl.size, false); FIRSTS(strview_starts_with, f, CALL_STARTS); }
static void m_startsn(int f){ want_b = hay.size >= ndl.size && r_same(hay.data, ndl.data, ndl.size, true); FIRSTS(strview_starts_with_nocase, f, CALL_STARTS_NC); }
static void m_trim(int f)   { want_v = r_trim(hay, ndl, 3); FIRSTS(strview_trim, f, CALL_TRIM); }
static void m_trims(int f)  { want_v = r_trim(hay, ndl, 1); FIRSTS(strview_trim_start, f, CALL_TRIM_S); }
static void m_trime(int f)  { want_v = r_trim(hay, ndl, 2); FIRSTS(strview_trim_end, f, CALL_TRIM_E); }
static void m_ff(int f)     { want_v = r_find(hay, ndl, false, false); FIRSTS(strview_find_first, f, CALL_FF); }
static void m_ffn(int f)    { want_v = r_find(hay, ndl, false, true); FIRSTS(strview_find_first_nocase, f, CALL_FFN); }
static void m_fl(int f)     { want_v = r_find(hay, ndl, true, false); FIRSTS(strview_find_last, f, CALL_FL); }
static void m_fln(int f)    { want_v = r_find(hay, ndl, true, true); FIRSTS(strview_find_last_nocase, f, CALL_FLN); }
static void (* const MV[11])(int) = {m_match, m_matchn, m_starts, m_startsn, m_trim, m_trims, m_trime, m_ff, m_ffn, m_fl, m_fln};
static void view_macros(void)
{
	int hl = vh_thorough ? 5 : 4, nl = 3;
	const unsigned char al[] = {'a', 'A', 'b'};
	vh_section("view macros: every form of argument");
	for(int m=0; m<11; m++) for(int n=0; n<=nl; n++) for(long ni=0; ni<vh_pow(3, n); ni++)
	{
		if(!vh_slice()) continue;
		for(int form=0; form<NFORM; form++) for(int h=0; h<=hl; h++) for(long hi=0; hi<vh_pow(3, h); hi++) if(vh_case())
		{
			unsigned char ht[8], nt[8];
			vh_text(ht, hi, h, al, 3); vh_text(nt, ni, n, al, 3); nt[n] = 0;
			hay = RV(vh_slot_set(&sh, ht, h, hi & 7), h);
			ndl = RV(vh_slot_set(&sn, nt, n+1, ni & 7), n);
			cur_form = FORM[form];
			ev1 = ev2 = 0; neval = 0;
			VH_DESC("macro %d on %s, %s as %s", m, vh_q(ht, h), vh_q(nt, n), FORM[form]);
			VH_NONTRIV(h && n);
			MV[m](form);
			VH_CHECK(neval >= 4, "harness: not all forms were run");
		}
	}
	vh_section("view macros: literals");
	if(vh_slice())
	{
		//	hay, needle (literal), expected of each
		#define L(h, n) do{ if(vh_case()) { hay = cstr(h); ndl = cstr(n); cur_form = "literal"; ev1 = ev2 = 0; VH_DESC("literals %s %s", h, n); VH_NONTRIV(true); \
			cur_macro = "strview_is_match"; want_b = hay.size == ndl.size && r_same(hay.data, ndl.data, ndl.size, 0); CALL_IS_MATCH(hay_f(), n, 1, 0); CALL_IS_MATCH(cstr(h), n, 0, 0); CALL_IS_MATCH(cstr_SL(h), cstr_SL(n), 0, 0); \
			cur_macro = "strview_is_match_nocase"; want_b = hay.size == ndl.size && r_same(hay.data, ndl.data, ndl.size, 1); CALL_IS_MATCH_NC(hay_f(), n, 1, 0); CALL_IS_MATCH_NC(cstr_SL(h), cstr_SL(n), 0, 0); \
			cur_macro = "strview_starts_with"; want_b = hay.size >= ndl.size && r_same(hay.data, ndl.data, ndl.size, 0); CALL_STARTS(hay_f(), n, 1, 0); CALL_STARTS(cstr_SL(h), cstr_SL(n), 0, 0); \
			cur_macro = "strview_starts_with_nocase"; want_b = hay.size >= ndl.size && r_same(hay.data, ndl.data, ndl.size, 1); CALL_STARTS_NC(hay_f(), n, 1, 0); CALL_STARTS_NC(cstr_SL(h), cstr_SL(n), 0, 0); \
			cur_macro = "strview_trim"; want_v = r_trim(hay, ndl, 3); CALL_TRIM(hay_f(), n, 1, 0); CALL_TRIM(hay_f(), cstr_SL(n), 1, 0); \
			cur_macro = "strview_trim_start"; want_v = r_trim(hay, ndl, 1); CALL_TRIM_S(hay_f(), n, 1, 0); CALL_TRIM_S(hay_f(), cstr_SL(n), 1, 0); \
			cur_macro = "strview_trim_end"; want_v = r_trim(hay, ndl, 2); CALL_TRIM_E(hay_f(), n, 1, 0); CALL_TRIM_E(hay_f(), cstr_SL(n), 1, 0); \
			cur_macro = "strview_find_first"; want_v = r_find(hay, ndl, 0, 0); CALL_FF(hay_f(), n, 1, 0); CALL_FF(hay_f(), cstr_SL(n), 1, 0); \
			cur_macro = "strview_find_first_nocase"; want_v = r_find(hay, ndl, 0, 1); CALL_FFN(hay_f(), n, 1, 0); CALL_FFN(hay_f(), cstr_SL(n), 1, 0); \
			cur_macro = "strview_find_last"; want_v = r_find(hay, ndl, 1, 0); CALL_FL(hay_f(), n, 1, 0); CALL_FL(hay_f(), cstr_SL(n), 1, 0); \
			cur_macro = "strview_find_last_nocase"; want_v = r_find(hay, ndl, 1, 1); CALL_FLN(hay_f(), n, 1, 0); CALL_FLN(hay_f(), cstr_SL(n), 1, 0); } }while(0)
		L("", ""); L("", "a"); L("abcabc", ""); L("abcABCabc", "abc"); L("abcABC", "ABC"); L("ABC", "abc"); L("aabaa", "a"); L("xAyaxaY", "ya"); L("aab" "aa", "b" "a"); L("\"quoted, (text)\"", "\""); L("a,b,c", ",b,"); L("  a ", " ");
		#undef L
		if(vh_case())
		{
			strview_t v = cstr_SL("a\0b\0"), w = cstr_SL(""), x = cstr_SL("a" "bc" "\n");
			static strview_t tab[2]; tab[0] = cstr_SL("one"); tab[1] = STRVIEW_INVALID;
			VH_DESC("cstr_SL, STRVIEW_INVALID");
			VH_NONTRIV(true);
			VH_CHECK(v.size == 4 && !memcmp(v.data, "a\0b\0", 5), "cstr_SL of a literal with zero bytes has size %d", v.size);
			VH_CHECK(w.size == 0 && w.data, "cstr_SL of an empty literal must be valid and empty");
			VH_CHECK(x.size == 4 && !memcmp(x.data, "abc\n", 4), "cstr_SL of concatenated literals");
			VH_CHECK(tab[0].size == 3 && !tab[1].data && !tab[1].size && !strview_is_valid(STRVIEW_INVALID) && strview_is_valid(cstr_SL("x")) && !strview_is_valid(cstr(NULL)), "STRVIEW_INVALID");
		}
		if(vh_case())
		{
			char d[64];
			strview_t t[3] = {cstr("one"), cstr("two!"), cstr("3")}, *p = t;
			VH_DESC("PRIstr with expressions");
			VH_NONTRIV(true);
			snprintf(d, sizeof(d), "<%" PRIstr "|%" PRIstr "|%" PRIstr "|%d>", PRIstrarg(t[1]), PRIstrarg(*(p+2)), PRIstrarg(strview_sub(*p, 1, 3)), 7);
			VH_CHECK(!strcmp(d, "<two!|3|ne|7>"), "PRIstr of expressions gives %s", d);
			snprintf(d, sizeof(d), "%" PRIstr "%" PRIstr, PRIstrarg(p ? t[0] : t[1]), PRIstrarg(*p));
			VH_CHECK(!strcmp(d, "oneone"), "PRIstr of a conditional gives %s", d);
			snprintf(d, sizeof(d), "%10" PRIstr "|%-6" PRIstr "|", PRIstrarg(t[0]), PRIstrarg(t[1]));
			VH_CHECK(!strcmp(d, "       one|two!  |"), "PRIstr with a width gives %s", d);
		}
	}
}
//--- buffers -------------------------------------------------------------------------------------
static long fixmem[80];
enum { FIX, DYN };
static void mkbuf(int kind, const char* c, int n, int cap)
{
	memset(fixmem, 0x7E, sizeof(fixmem));
	B = kind == FIX ? strbuf_create_fixed(fixmem, sizeof(strbuf_t) + cap + 1) : strbuf_create_empty(cap, arena_allocator());
	BP = &B;
	strbuf_append_strview(BP, RV(c, n));
}
static char want[1200]; static int want_n;
static void __attribute__((noinline)) got_buf(strview_t r)
{
	neval++;
	VH_CHECK(B->size == want_n && !memcmp(B->cstr, want, want_n) && B->cstr[want_n] == 0, "%s with its argument a %s leaves %s, must be %s", cur_macro, cur_form, vh_q(B->cstr, B->size), vh_q(want, want_n));
	VH_CHECK(r.data == B->cstr && r.size == want_n, "%s with its argument a %s returns %s, must be a view of the content", cur_macro, cur_form, rv_str(r));
}
static const char base_c[] = "abAba"; enum { BASE_N = 5 };
static int bkind;
static void __attribute__((noinline)) rebuild(void) { mkbuf(bkind, base_c, BASE_N, 12); pos_v = RV(B->cstr+2, 1); }
static void spliced(int at) { want_n = 0; memcpy(want, base_c, at); memcpy(want+at, ndl.data, ndl.size); memcpy(want+at+ndl.size, base_c+at, BASE_N-at); want_n = BASE_N + ndl.size; }
static void __attribute__((noinline)) check_ev3(int n3) { VH_CHECK(ev3 == n3, "%s evaluated its position %d times instead of %d", cur_macro, ev3, n3); ev3 = 0; }
#define CB(call, a, b, n1, n2, n3) do{ rebuild(); got_buf(call); check_ev(n1, n2); check_ev3(n3); }while(0)
#define CALL_APP(a, b, n1, n2) CB(strbuf_append(a, b), a, b, n1, n2, 0)
#define CALL_PRE(a, b, n1, n2) CB(strbuf_prepend(a, b), a, b, n1, n2, 0)
#define CALL_INS(a, b, n1, n2) CB(strbuf_insert_at_index(a, idx_f(), b), a, b, n1, n2, 1)
#define CALL_INS2(a, b, n1, n2) CB(strbuf_insert_at_index(a, idx_v, b), a, b, n1, n2, 0)
#define CALL_BEF(a, b, n1, n2) CB(strbuf_insert_before(a, pos_f(), b), a, b, n1, n2, 1)
#define CALL_BEF2(a, b, n1, n2) CB(strbuf_insert_before(a, pos_v, b), a, b, n1, n2, 0)
#define CALL_AFT(a, b, n1, n2) CB(strbuf_insert_after(a, pos_f(), b), a, b, n1, n2, 1)
#define CALL_AFT2(a, b, n1, n2) CB(strbuf_insert_after(a, strbuf_view(&B).data ? pos_v : hay, b), a, b, n1, n2, 0)
#define CALL_STR(a, b, n1, n2) CB(strbuf_strip(a, b), a, b, n1, n2, 0)
#define FIRSTB(nm, form, CALL) do{ if(#nm[3]) cur_macro = #nm; FORMS(form, buf_f(), 1, CALL) FORMS(form, &B, 0, CALL) FORMS(form, BP ? BP : NULL, 0, CALL) }while(0)
static void b_app(int f) { spliced(BASE_N); FIRSTB(strbuf_append, f, CALL_APP); }
static void b_pre(int f) { spliced(0); FIRSTB(strbuf_prepend, f, CALL_PRE); }
static void b_ins(int f) { idx_v = 3; spliced(3); FIRSTB(strbuf_insert_at_index, f, CALL_INS); FIRSTB(cur, f, CALL_INS2); idx_v = -1; spliced(4); FIRSTB(strbuf_insert_at_index, f, CALL_INS); FIRSTB(cur, f, CALL_INS2); }
static void b_bef(int f) { spliced(2); FIRSTB(strbuf_insert_before, f, CALL_BEF); FIRSTB(cur, f, CALL_BEF2); }
static void b_aft(int f) { spliced(3); FIRSTB(strbuf_insert_after, f, CALL_AFT); FIRSTB(cur, f, CALL_AFT2); }
static void b_str(int f) { want_n = 0; for(int i=0; i<BASE_N; i++) if(!r_in(base_c[i], ndl)) want[want_n++] = base_c[i]; FIRSTB(strbuf_strip, f, CALL_STR); }
static void (* const MB[6])(int) = {b_app, b_pre, b_ins, b_bef, b_aft, b_str};
static void buf_macros(void)
{
	const unsigned char al[] = {'a', 'A', 'b'};
	vh_section("buffer macros: every form of argument");
	for(int m=0; m<6; m++) for(int k=0; k<2; k++) for(int form=0; form<NFORM; form++)
	{
		if(!vh_slice()) continue;
		for(int n=0; n<=3; n++) for(long ni=0; ni<vh_pow(3, n); ni++) if(vh_case())
		{
			unsigned char nt[8];
			vh_text(nt, ni, n, al, 3); nt[n] = 0;
			ndl = RV(vh_slot_set(&sn, nt, n+1, ni & 7), n);
			hay = cstr("");
			bkind = k; cur_form = FORM[form];
			ev1 = ev2 = ev3 = 0; neval = 0;
			VH_DESC("buffer macro %d, %s buffer, argument %s as %s", m, k == FIX ? "fixed" : "dynamic", vh_q(nt, n), FORM[form]);
			VH_NONTRIV(n > 0);
			arena_reset(n & 1 ? A_DOWN : A_UP);
			MB[m](form);
			VH_CHECK(neval >= 3, "harness: not all forms were run");
		}
	}
	vh_section("buffer macros: literals");
	for(int k=0; k<2; k++)
	{
		if(!vh_slice()) continue;
		bkind = k;
		#define L(n) do{ if(vh_case()) { ndl = cstr(n); cur_form = "literal"; ev1 = ev2 = ev3 = 0; arena_reset(A_UP); VH_DESC("literal %s", n); VH_NONTRIV(true); \
			cur_macro = "strbuf_append"; spliced(BASE_N); CALL_APP(buf_f(), n, 1, 0); cur_macro = "strbuf_prepend"; spliced(0); CALL_PRE(buf_f(), n, 1, 0); \
			cur_macro = "strbuf_insert_at_index"; idx_v = 1; spliced(1); CALL_INS(buf_f(), n, 1, 0); CALL_INS2(buf_f(), n, 1, 0); cur_macro = "strbuf_insert_before"; spliced(2); CALL_BEF(buf_f(), n, 1, 0); CALL_BEF2(buf_f(), n, 1, 0); \
			cur_macro = "strbuf_insert_after"; spliced(3); CALL_AFT(buf_f(), n, 1, 0); CALL_AFT2(buf_f(), n, 1, 0); \
			cur_macro = "strbuf_strip"; want_n = 0; for(int i=0; i<BASE_N; i++) if(!r_in(base_c[i], ndl)) want[want_n++] = base_c[i]; CALL_STR(buf_f(), n, 1, 0); } }while(0)
		L(""); L("x"); L("ab"); L("a" "b" "c"); L("\"(,)\""); L("zzzzzzz");
		#undef L
	}
	vh_section("strbuf_create: every kind of argument");
	for(int f=0; f<10; f++)
	{
		if(!vh_slice()) continue;
		for(int n=0; n<=70; n++) if(vh_case())
		{
			static char t[80];
			strbuf_t* b = NULL;
			strview_t v;
			bool init = f >= 5;
			size_t z = n;
			int calls = 0;
			memset(t, 'x', n); t[n] = 0;
			v = RV(vh_slot_set(&sn, t, n, n & 7), n);
			ndl = v; ev2 = 0;
			arena_reset(n & 1 ? A_DOWN : A_UP);
			VH_DESC("strbuf_create form %d, %d", f, n);
			VH_NONTRIV(n > 0);
			switch(f)
			{
				case 0: b = strbuf_create(n, (calls++, arena_allocator())); break;
				case 1: b = strbuf_create(z, (calls++, arena_allocator())); break;
				case 2: b = strbuf_create(sizeof(char)*n, (calls++, arena_allocator())); break;
				case 3: { const int c = n; b = strbuf_create(c, (calls++, arena_allocator())); break; }
				case 4: { int c = n; b = strbuf_create(c++, (calls++, arena_allocator())); VH_CHECK(c == n+1, "strbuf_create evaluated its capacity %d times", c-n); break; }
				case 5: b = strbuf_create(v, (calls++, arena_allocator())); break;
				case 6: { const strview_t c = v; b = strbuf_create(c, (calls++, arena_allocator())); break; }
				case 7: b = strbuf_create(view_f(), (calls++, arena_allocator())); VH_CHECK(ev2 == 1, "strbuf_create evaluated its content %d times", ev2); break;
				case 8: b = strbuf_create(n ? v : cstr(""), (calls++, arena_allocator())); break;
				case 9: { strview_t c[2] = {v, cstr("!")}, *p = c; b = strbuf_create(*p++, (calls++, arena_allocator())); VH_CHECK(p == c+1, "strbuf_create evaluated its content %d times", (int)(p-c)); break; }
			}
			VH_CHECK(calls == 1, "strbuf_create evaluated its allocator %d times", calls);
			VH_CHECK(b && b->size == (init ? n : 0) && b->capacity >= n && b->cstr[b->size] == 0 && !memcmp(b->cstr, t, b->size), "strbuf_create(%s of %d) gives size %d capacity %d content %s", init ? "view" : "capacity", n, b ? b->size : -1, b ? b->capacity : -1, b ? vh_q(b->cstr, b->size) : "-");
			strbuf_destroy(&b);
			VH_CHECK(arena_live_count() == 0, "strbuf_create leaked");
		}
	}
}
//--- strbuf_cat of every number of views ------------------------------------------------------------
static strview_t cv[130]; static int ce[130];
static strview_t cview(int i) { ce[i]++; return cv[i]; }
#define C(i) cview(i)
#include "catn.h"
static strview_t cat_n(int n)
{
	switch(n)
	{
		#define CASE(n, ...) case n: return strbuf_cat(buf_f(), __VA_ARGS__);
		CATN(CASE)
		#undef CASE
	}
	vh_fail("harness: cat_n");
}
static void cats(void)
{
	static const char pool[] = "abcdefghijklmnopqrstuvwxyz0123456789";
	vh_section("strbuf_cat: every number of views");
	for(int n=1; n<=127; n++)
	{
		if(!vh_slice()) continue;
		//	w: lengths 0 all one, 1 mixed, 2.. only one view is not empty; own: which view, if any, is of the buffer itself
		for(int kind=0; kind<6; kind++) for(int w=0; w<(vh_thorough ? 2+n : 5); w++) for(int own=-1; own<n; own += own < 3 || vh_thorough || own == n-2 ? 1 : own < n-4 ? (n-4-own > 20 ? 20 : n-4-own) : 1) if(vh_case())
		{
			int len[130], room, only = w < 2 ? -1 : vh_thorough ? w-2 : w == 2 ? 0 : w == 3 ? n-1 : n/2;
			static const int EXTRA[6] = {0, 1, -1, 0, 40, -1000};	// fixed: exact, one more, one less; dynamic: exact, enough, too small
			bool fixed = kind < 3, fits;
			want_n = 0;
			for(int i=0; i<n; i++)
			{
				len[i] = only >= 0 ? (i == only ? 5 : 0) : w == 0 ? 1 : i%4;
				if(i == own) len[i] = 3;
				memcpy(want+want_n, i == own ? "wnb" : pool + i%20, len[i]);
				want_n += len[i];
			}
			room = want_n + EXTRA[kind];
			if(room < 6) room = 6;
			if(room > 900) continue;
			fits = room >= want_n;
			if(fixed && own >= 0) continue;		// not possible in a fixed buffer (C13)
			arena_reset(kind == 4 ? A_STAY : n & 1 ? A_DOWN : A_UP);
			mkbuf(fixed ? FIX : DYN, "ownbuf", 6, room);
			if(fixed && !fits) want_n = 0;
			for(int i=0; i<n; i++) { cv[i] = i == own ? RV(B->cstr+1, 3) : RV(pool + i%20, len[i]); ce[i] = 0; }
			ev1 = 0; neval = 0;
			cur_macro = "strbuf_cat"; cur_form = "view";
			VH_DESC("strbuf_cat of %d views, lengths %d, room %d of %d, own view at %d", n, w, room, want_n, own);
			VH_NONTRIV(want_n > 0);
			vh->trans++;
			strview_t r = cat_n(n);
			for(int i=0; i<130; i++) VH_CHECK(ce[i] == (i < n), "strbuf_cat of %d views evaluated view %d %d times", n, i, ce[i]);
			VH_CHECK(ev1 == 1, "strbuf_cat evaluated its buffer %d times", ev1);
			got_buf(r);
		}
	}
	vh_section("strbuf_cat: macros as arguments");
	if(vh_slice()) for(int m=0; m<3; m++) if(vh_case())
	{
		strbuf_t *x, *y, *z;
		VH_DESC("nested macros, mode %d", m);
		VH_NONTRIV(true);
		arena_reset(m);
		x = strbuf_create(4, arena_allocator()); y = strbuf_create(cstr("y"), arena_allocator()); z = strbuf_create(cstr("zz"), arena_allocator());
		strbuf_cat(&x, cstr("<"), strbuf_cat(&y, cstr_SL("a"), strbuf_view(&y), strbuf_append(&z, "3")), strview_trim("  " ? cstr("  t ") : cstr(""), " "), cstr(">"));
		VH_CHECK(!strcmp(x->cstr, "<ayzz3t>") && !strcmp(y->cstr, "ayzz3") && !strcmp(z->cstr, "zz3"), "nested strbuf_cat gives %s %s %s", x->cstr, y->cstr, z->cstr);
		strbuf_cat(&x, strbuf_cat(&y, strbuf_cat(&z, cstr("q"), strbuf_view(&z)), cstr(","), strbuf_view(&y)), (m ? strbuf_view(&x) : cstr("<ayzz3t>")), strview_sub(cstr("0123"), 1, 3));
		VH_CHECK(!strcmp(x->cstr, "qzz3,ayzz3<ayzz3t>12"), "nested strbuf_cat gives %s", x->cstr);
		strbuf_insert_at_index(&x, 1, strbuf_insert_before(&y, strview_find_first(strbuf_view(&y), ","), strbuf_strip(&z, "3")));
		VH_CHECK(!strcmp(x->cstr, "qqzz3qzz,ayzz3zz3,ayzz3<ayzz3t>12"), "nested insertions give %s", x->cstr);
		if(strview_is_match(strbuf_view(&z), "qzz")) strbuf_append(&z, "!"); else strbuf_append(&z, "?");
		VH_CHECK(!strcmp(z->cstr, "qzz!"), "macros in if and else: %s", z->cstr);
		strbuf_destroy(&x); strbuf_destroy(&y); strbuf_destroy(&z);
		VH_CHECK(arena_live_count() == 0, "leaked");
	}
}
//--- strnum_value: every destination type -----------------------------------------------------------
#define NTYPES(X) X(0, uchar, unsigned char, 0, UCHAR_MAX) X(1, ushort, unsigned short, 0, USHRT_MAX) X(2, uint, unsigned int, 0, UINT_MAX) X(3, ulong, unsigned long, 0, ULONG_MAX) X(4, ullong, unsigned long long, 0, ULLONG_MAX) \
	X(5, char, char, CHAR_MIN, CHAR_MAX) X(6, short, short, SHRT_MIN, SHRT_MAX) X(7, int, int, INT_MIN, INT_MAX) X(8, long, long, LONG_MIN, LONG_MAX) X(9, llong, long long, LLONG_MIN, LLONG_MAX)
#ifdef STRNUM_NOFLOAT
#define FTYPES(X)
#define NB_TYPES 10
#else
#define FTYPES(X) X(10, float, float) X(11, double, double) X(12, ldouble, long double)
#define NB_TYPES 13
#endif
#define TTYPES(X) X(uint8_t, UINT8_MAX) X(uint16_t, UINT16_MAX) X(uint32_t, UINT32_MAX) X(uint64_t, UINT64_MAX) X(int16_t, INT16_MAX) X(int32_t, INT32_MAX) X(int64_t, INT64_MAX) X(size_t, SIZE_MAX) X(intptr_t, INTPTR_MAX) X(uintptr_t, UINTPTR_MAX)
static strview_t nsrc; static strview_t* src_f(void) { ev2++; return &nsrc; }
static int opt_f(int o) { ev3++; return o; }
static void num_text(char* t, __int128 v) { char b[60]; int n = 0; bool neg = v < 0; if(neg) v = -v; do b[n++] = '0' + (int)(v%10); while(v /= 10); if(neg) *t++ = '-'; while(n) *t++ = b[--n]; *t = 0; }
static void nums(void)
{
	vh_section("strnum_value: every destination type");
	for(int ty=0; ty<NB_TYPES; ty++)
	{
		if(!vh_slice()) continue;
		for(int e=0; e<4*17; e++) for(int form=0; form<5; form++) if(vh_case())
		{
			//	values around the limits of every type
			static const __int128 E[17] = {0, SCHAR_MIN, SCHAR_MAX, UCHAR_MAX, SHRT_MIN, SHRT_MAX, USHRT_MAX, INT_MIN, INT_MAX, UINT_MAX, LLONG_MIN, LLONG_MAX, ULLONG_MAX, 1000, -1000, 65, -2};
			__int128 v = E[e/4] + e%4 - 1;
			char t[64];
			int err = -1, n;
			num_text(t, v);
			strcat(t, ";"); n = strlen(t);
			nsrc = RV(vh_slot_set(&sn, t, n, e & 7), n);
			const char* at = nsrc.data;
			ev1 = ev2 = ev3 = 0;
			VH_DESC("strnum_value of %s into type %d, form %d", t, ty, form);
			VH_NONTRIV(true);
			switch(ty)
			{
				#define N(i, nm, T, lo, hi) case i: { struct { T g0, d[2], g1; } s; T *p = s.d, *q = p; int k = 0; memset(&s, 0x5A, sizeof(s)); \
					__int128 was = s.d[0]; \
					switch(form) { case 0: err = strnum_value(&s.d[0], &nsrc, 0); break; case 1: err = strnum_value(p++, src_f(), opt_f(0)); break; case 2: err = strnum_value(s.d, ev2 >= 0 ? src_f() : NULL, STRNUM_NOEXP | opt_f(STRNUM_NOBX)); break; \
						case 3: err = strnum_value(&s.d[k++], src_f(), opt_f(0)); break; case 4: err = strnum_value((ev1++, p++), src_f(), opt_f(0)); break; } \
					if(form) VH_CHECK(ev2 == 1 && ev3 == 1 && ((form != 1 && form != 4) || p == q+1) && (form != 3 || k == 1), "strnum_value(" #T "*): an argument was not evaluated once"); \
					if((i >= 5 || v >= 0) && v >= (__int128)lo && v <= (__int128)hi) { VH_CHECK(!err && s.d[0] == (T)v, "strnum_value(" #T "*) of %s: error %d or wrong value", t, err); VH_CHECK(nsrc.data == at+n-1 && nsrc.size == 1, "strnum_value(" #T "*) of %s left %s", t, rv_str(nsrc)); } \
					else { VH_CHECK(err == (i < 5 && v < 0 ? EINVAL : ERANGE), "strnum_value(" #T "*) of %s returns %d", t, err); VH_CHECK(s.d[0] == (T)was && nsrc.data == at && nsrc.size == n, "strnum_value(" #T "*) of %s failed but changed its arguments", t); } \
					T g; memset(&g, 0x5A, sizeof(g)); VH_CHECK(!memcmp(&s.g0, &g, sizeof(g)) && !memcmp(&s.d[1], &g, sizeof(g)) && !memcmp(&s.g1, &g, sizeof(g)), "strnum_value(" #T "*) wrote beside its destination"); break; }
				NTYPES(N)
				#undef N
				#define N(i, nm, T) case i: { struct { T g0, d[2], g1; } s; T *p = s.d, *q = p, g = 7; int k = 0; s.g0 = s.d[0] = s.d[1] = s.g1 = g; \
					switch(form) { case 0: err = strnum_value(&s.d[0], &nsrc, 0); break; case 1: err = strnum_value(p++, src_f(), opt_f(0)); break; case 2: err = strnum_value(s.d, ev2 >= 0 ? src_f() : NULL, opt_f(0)); break; \
						case 3: err = strnum_value(&s.d[k++], src_f(), opt_f(0)); break; case 4: err = strnum_value((ev1++, p++), src_f(), opt_f(0)); break; } \
					if(form) VH_CHECK(ev2 == 1 && ev3 == 1 && ((form != 1 && form != 4) || p == q+1) && (form != 3 || k == 1), "strnum_value(" #T "*): an argument was not evaluated once"); \
					T w = (T)v, df = s.d[0] > w ? s.d[0] - w : w - s.d[0], aw = w < 0 ? -w : w; \
					VH_CHECK(!err && df <= aw * (i == 10 ? 1e-6L : i == 11 ? 1e-15L : 1e-18L), "strnum_value(" #T "*) of %s gives %Lg, error %d", t, (long double)s.d[0], err); \
					VH_CHECK(nsrc.data == at+n-1 && nsrc.size == 1, "strnum_value(" #T "*) of %s left %s", t, rv_str(nsrc)); \
					VH_CHECK(s.g0 == g && s.d[1] == g && s.g1 == g, "strnum_value(" #T "*) wrote beside its destination"); break; }
				FTYPES(N)
				#undef N
			}
		}
	}
	vh_section("strnum_value: typedefs");
	if(vh_slice())
	{
		#define N(T, hi) if(vh_case()) { char t[64]; num_text(t, (__int128)hi); T d = 0; strview_t v = cstr(t); VH_DESC(#T); VH_NONTRIV(true); VH_CHECK(strnum_value(&d, &v, 0) == 0 && d == (T)hi && v.size == 0, "strnum_value(" #T "*) of %s is wrong", t); \
			num_text(t, (__int128)hi + 1); v = cstr(t); d = 1; VH_CHECK(strnum_value(&d, &v, 0) == ERANGE && d == 1 && v.size == (int)strlen(t), "strnum_value(" #T "*) of %s must be ERANGE", t); }
		TTYPES(N)
		#undef N
	}
}
int main(int argc, char** argv)
{
	vh_init(argc, argv);
	vh_slot_init(&sh, 64); vh_slot_init(&sn, 128);
	arena_init();
	view_macros(); buf_macros(); cats(); nums();
	return vh_end();
}
