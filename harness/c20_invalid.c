//	C20 missing or invalid arguments
#include "bufmodel.h"
#include "refview.h"
#include "strnum.h"
#include "strbuf_io.h"
#include "strview_io.h"
#include "strbuf_crypt.h"
#include <math.h>

static volatile int io_calls;
ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t);
ssize_t __wrap_read(int fd, void* p, size_t n) { if(fd == 77) { io_calls++; return -1; } return __real_read(fd, p, n); }
ssize_t __wrap_write(int fd, const void* p, size_t n) { if(fd == 77) { io_calls++; return -1; } return __real_write(fd, p, n); }

static int fetch_calls;
static int fetcher(void* d, int n, void* v) { (void)d; (void)n; (void)v; fetch_calls++; return 0; }

static strview_t w_vcat(strbuf_t** b, int n, ...) { va_list va; va_start(va, n); strview_t r = strbuf_vcat(b, n, va); va_end(va); return r; }
static strview_t w_vprintf(strbuf_t** b, const char* f, ...) { va_list va; va_start(va, f); strview_t r = strbuf_vprintf(b, f, va); va_end(va); return r; }
static strview_t w_avprintf(strbuf_t** b, const char* f, ...) { va_list va; va_start(va, f); strview_t r = strbuf_append_vprintf(b, f, va); va_end(va); return r; }
static strview_t w_vprnf(strbuf_t** b, const char* f, ...) { va_list va; va_start(va, f); strview_t r = strbuf_vprnf(b, f, va); va_end(va); return r; }
static strview_t w_avprnf(strbuf_t** b, const char* f, ...) { va_list va; va_start(va, f); strview_t r = strbuf_append_vprnf(b, f, va); va_end(va); return r; }

//	every function which takes a buffer. s = source text, i = integer argument
#define BUFCALLS(X) \
	X(assign, strbuf_assign(pb, s)) X(append, strbuf_append(pb, s)) X(append_cstr, strbuf_append(pb, cs)) X(append_strview, strbuf_append_strview(pb, s)) \
	X(append_char, strbuf_append_char(pb, (char)i)) X(prepend, strbuf_prepend(pb, s)) X(prepend_cstr, strbuf_prepend(pb, cs)) \
	X(insert, strbuf_insert_at_index(pb, i, s)) X(insert_cstr, strbuf_insert_at_index(pb, i, cs)) X(before, strbuf_insert_before(pb, pos, s)) \
	X(before_cstr, strbuf_insert_before(pb, pos, cs)) X(after, strbuf_insert_after(pb, pos, s)) X(after_cstr, strbuf_insert_after(pb, pos, cs)) \
	X(strip, strbuf_strip(pb, s)) X(strip_cstr, strbuf_strip(pb, cs)) X(cat1, strbuf_cat(pb, s)) X(cat2, strbuf_cat(pb, s, s)) X(cat4, strbuf_cat(pb, s, pos, s, s)) \
	X(vcat, w_vcat(pb, 2, s, s)) X(vcat0, w_vcat(pb, 0)) X(printf, strbuf_printf(pb, "%d", i)) X(vprintf, w_vprintf(pb, "%d", i)) X(append_printf, strbuf_append_printf(pb, "%d", i)) \
	X(append_vprintf, w_avprintf(pb, "%d", i)) X(prnf, strbuf_prnf(pb, "%d", i)) X(vprnf, w_vprnf(pb, "%d", i)) X(append_prnf, strbuf_append_prnf(pb, "%d", i)) \
	X(append_vprnf, w_avprnf(pb, "%d", i)) X(view, strbuf_view(pb)) X(shrink, strbuf_shrink(pb)) X(grow, strbuf_grow(pb, i)) \
	X(append_using, strbuf_append_using(pb, fetcher, NULL)) X(encrypt, strbuf_encrypt(pb, key, iv)) X(decrypt, strbuf_decrypt(pb, key, iv))
#define NAME(n,c) #n,
#define CALL(n,c) case BC_##n: return c;
#define ENUM(n,c) BC_##n,
enum { BUFCALLS(ENUM) NBC };
static const char* bc_name[] = { BUFCALLS(NAME) };
static uint8_t key[32], iv[16];
static strview_t bufcall(int k, strbuf_t** pb, strview_t s, const char* cs, strview_t pos, int i)
{
	switch(k) { BUFCALLS(CALL) }
	return STRVIEW_INVALID;
}

static char text[64] = "123 abc,\"x\"\r\n";
#define INV(v) (!(v).data && !(v).size)
//	number conversions
#define TYPES(X) X(uchar, unsigned char) X(ushort, unsigned short) X(uint, unsigned int) X(ulong, unsigned long) X(ullong, unsigned long long) \
	X(char, char) X(short, short) X(int, int) X(long, long) X(llong, long long) X(float, float) X(double, double) X(ldouble, long double)
#define CONV(X) TYPES(X) X(i8,int8_t) X(i16,int16_t) X(i32,int32_t) X(i64,int64_t) X(u8,uint8_t) X(u16,uint16_t) X(u32,uint32_t) X(u64,uint64_t)

static void one(const act_t* a, void* c)
{
	const m_t* m = c;
	bool any = false;
	for(int q=0; q<a->n; q++) any |= a->s[q].kind == S_INVALID;
	if(a->dkind == 2) any = true;
	if(!any || !vh_case()) return;
	VH_DESC("%s on %s", a_str(a), m_str(m));
	VH_NONTRIV(1);
	bm_step(m, a);
}
int main(int argc, char** argv)
{
	vh_init(argc, argv);
	bm_init(600, 3000);
	chk = F_CONTENT|F_VIEW|F_INV|F_FIXED|F_SRC;
	strview_t good = cstr_SL("12"), iv0 = STRVIEW_INVALID;
	int ints[] = {0, 1, -1, 5, -5, 1000, INT_MIN, INT_MAX};
	int k, n, i, j, opt;
	char before[64];
	memcpy(before, text, 64);

	vh_section("every buffer function on a missing buffer");
	for(k=0; k<NBC; k++)
	{
		if(!vh_slice()) continue;
		for(i=0; i<8; i++) for(j=0; j<9; j++) for(n=0; n<2; n++)
		{
			if(!vh_case()) continue;
			strview_t ss[3] = {good, iv0, RV(text,0)};
			const char* cs[3] = {"12", NULL, ""};
			strbuf_t* null = NULL;
			VH_DESC("%s of a %s, integer argument %d, source %d position %d", bc_name[k], n ? "NULL buffer" : "NULL address", ints[i], j%3, j/3);
			VH_NONTRIV(1);
			arena_reset(false);
			fetch_calls = 0;
			strview_t r = bufcall(k, n ? &null : NULL, ss[j%3], cs[j%3], ss[j/3], ints[i]);
			vh->trans++;
			VH_CHECK(INV(r), "%s of a missing buffer returned %s, not an invalid view", bc_name[k], rv_str(r));
			VH_CHECK(!null, "%s of a NULL buffer changed the pointer", bc_name[k]);
			VH_CHECK(!arena_calls && !fetch_calls, "%s of a missing buffer called the allocator or the fetcher", bc_name[k]);
			VH_CHECK(!memcmp(text, before, 64), "%s of a missing buffer wrote to its source", bc_name[k]);
		}
	}
	if(vh_slice())
	{
		strbuf_t* null = NULL;
		if(vh_case()) { VH_DESC("destroy"); strbuf_destroy(NULL); strbuf_destroy(&null); VH_CHECK(!null, "destroy of a NULL buffer"); }
		if(vh_case()) { VH_DESC("to_cstr"); VH_CHECK(!strbuf_to_cstr(NULL) && !strbuf_to_cstr(&null) && !null, "to_cstr of a missing buffer is not NULL"); }
		if(vh_case())
		{
			VH_DESC("stream functions");
			VH_CHECK(strbuf_append_read(NULL, 77) == 0 && strbuf_append_read(&null, 77) == 0, "strbuf_append_read of a missing buffer did not return 0");
			VH_CHECK(strbuf_write(77, NULL) == 0 && strbuf_write(77, &null) == 0, "strbuf_write of a missing buffer did not return 0");
			strview_t v = iv0;
			VH_CHECK(strview_write(77, NULL) == 0 && strview_write(77, &v) == 0 && INV(v), "strview_write of an invalid view did not return 0");
			VH_CHECK(!io_calls && !null, "a stream function used the descriptor without a buffer");
		}
	}

	vh_section("invalid sources on every buffer state");
	for(int kind=0; kind<NB_KINDS; kind++) for(int cap=0; cap<=(vh_thorough?20:9); cap++)
		for(int size=0; size<=cap && size<=(vh_thorough?5:4); size++)
		{
			if(!vh_slice()) continue;
			for(long t=0; t<vh_pow(2,size); t++)
			{
				unsigned char bytes[8];
				vh_text(bytes, t, size, (const unsigned char*)"a\0", 2);
				m_t m = {kind, cap, size, bytes}, w = {.b = bm_w};
				src_t srcs[3] = { {S_INVALID}, {S_EXT, 0, 0, bytes}, {S_EXT, 0, 1, (const unsigned char*)"q"} };
				each_action(&m, srcs, 3, 1u<<OP_ASSIGN|1u<<OP_APPEND|1u<<OP_PREPEND|1u<<OP_INSERT|1u<<OP_BEFORE|1u<<OP_AFTER|1u<<OP_STRIP|1u<<OP_CAT|1u<<OP_VCAT, true, one, &m);
				//	NULL C strings
				for(int q=0; q<12; q++)
				{
					if(!vh_case()) continue;
					VH_DESC("NULL C string %d on %s", q, m_str(&m));
					VH_NONTRIV(1);
					strbuf_t* b = bm_make(&m), *was = b;
					act_t a = { .op = OP_VIEW };
					bool valid, mincap;
					m_apply(&m, &a, &w, &valid, &mincap);
					strview_t r, pos = {b->cstr + size/2, size - size/2};
					const char* nul = NULL;
					switch(q)
					{
						case 0: r = strbuf_append(&b, nul); break;
						case 1: r = strbuf_prepend(&b, nul); break;
						case 2: r = strbuf_insert_at_index(&b, size/2, nul); break;
						case 3: r = strbuf_insert_at_index(&b, -1, nul); break;
						case 4: r = strbuf_insert_before(&b, pos, nul); break;
						case 5: r = strbuf_insert_after(&b, pos, nul); break;
						case 6: r = strbuf_strip(&b, nul); break;
						case 7: r = strbuf_insert_before(&b, iv0, nul); break;
						case 8: r = strbuf_insert_after(&b, iv0, nul); break;
						case 9: r = strbuf_insert_before(&b, iv0, "xyz"); break;
						case 10: r = strbuf_insert_after(&b, iv0, "xyz"); break;
						default: r = strbuf_append(&b, (char*)nul);
					}
					vh->trans++;
					bm_judge(&b, was, r, &m, &a, &w, true, false);
				}
			}
		}

	vh_section("view functions on a missing or invalid view");
	strview_t other[4] = {good, iv0, RV(text, 0), RV(text, 12)};
	const char* cset[3] = {"1", NULL, ""};
	for(i=0; i<4; i++)
	{
		if(!vh_slice()) continue;
		strview_t o = other[i], v;
		char eol = 0;
		#define T(what, cond) do{ if(vh_case()) { VH_DESC("%s with other argument %s", what, rv_str(o)); VH_NONTRIV(1); v = iv0; VH_CHECK(cond, "%s with other argument %s: wrong for a missing or invalid view", what, rv_str(o)); VH_CHECK(INV(v), "%s changed an invalid view", what); VH_CHECK(!memcmp(text, before, 64), "%s wrote to the text", what); vh->trans++; } }while(0)
		for(int q=0; q<2; q++) for(j=0; j<3; j++)
		{
			T("split_first_delim(NULL)", INV(strview_split_first_delim(NULL, cset[j], q)));
			T("split_last_delim(NULL)", INV(strview_split_last_delim(NULL, cset[j], q)));
			T("split_first_delim", INV(strview_split_first_delim(&v, cset[j], q)));
			T("split_last_delim", INV(strview_split_last_delim(&v, cset[j], q)));
			strview_t d[3] = {good, good, good};
			for(n=0; n<=3; n++)
				T("split_all", strview_split_all(n, d, v, cset[j], q) == 0 && d[0].data == good.data && d[2].data == good.data);
			T("trim", INV(strview_trim(v, cset[j])) && INV(strview_trim_start(v, cset[j])) && INV(strview_trim_end(v, cset[j])));
			T("find", INV(strview_find_first(v, cset[j])) && INV(strview_find_last(v, cset[j])) && INV(strview_find_first_nocase(v, cset[j])) && INV(strview_find_last_nocase(v, cset[j])));
		}
		for(j=0; j<8; j++)
		{
			T("split_index(NULL)", INV(strview_split_index(NULL, ints[j])));
			T("split_index", INV(strview_split_index(&v, ints[j])));
			for(n=0; n<8; n++) T("sub", INV(strview_sub(v, ints[j], ints[n])));
		}
		T("split_left(NULL)", INV(strview_split_left(NULL, o)));
		T("split_right(NULL)", INV(strview_split_right(NULL, o)));
		T("split_left", INV(strview_split_left(&v, o)));
		T("split_right", INV(strview_split_right(&v, o)));
		T("split_line(NULL)", INV(strview_split_line(NULL, NULL)) && INV(strview_split_line(NULL, &eol)) && eol == 0);
		T("split_line", INV(strview_split_line(&v, NULL)) && INV(strview_split_line(&v, &eol)) && eol == 0);
		for(n=1; n<256; n++)
		{
			eol = (char)n; T("split_line(NULL) with a state", INV(strview_split_line(NULL, &eol)) && eol == (char)n);
			strview_t none = STRVIEW_INVALID;
			eol = (char)n; T("split_line of an invalid view with a state", INV(strview_split_line(&none, &eol)) && eol == (char)n && INV(none));
		}
		eol = '\r'; T("split_line after CR", INV(strview_split_line(&v, &eol)) && eol == '\r'); eol = 0;
		T("pop_first_char", strview_pop_first_char(NULL) == 0 && strview_pop_first_char(&v) == 0);
		T("trim", INV(strview_trim(v, o)) && INV(strview_trim_start(v, o)) && INV(strview_trim_end(v, o)));
		T("dequote", INV(strview_dequote(v)));
		T("find", INV(strview_find_first(v, o)) && INV(strview_find_last(v, o)) && INV(strview_find_first_nocase(v, o)) && INV(strview_find_last_nocase(v, o)));
		T("find of", INV(strview_find_first(o, v)) && INV(strview_find_last(o, v)) && INV(strview_find_first_nocase(o, v)) && INV(strview_find_last_nocase(o, v)));
		T("contains", !strview_contains(v, o) && !strview_contains(o, v) && !strview_contains_nocase(v, o) && !strview_contains_nocase(o, v));
		T("is_match", strview_is_match(v, o) == INV(o) && strview_is_match(o, v) == INV(o) && strview_is_match_nocase(v, o) == INV(o) && strview_is_match_nocase(o, v) == INV(o));
		T("is_valid", !strview_is_valid(v));
		T("cstr", INV(cstr(NULL)));
		//	positions, sets and needles which are invalid, on a valid source
		if(o.data)
		{
			strview_t w = o;
			T("split_left at an invalid view", INV(strview_split_left(&w, v)) && w.data == o.data && w.size == o.size);
			T("split_right at an invalid view", INV(strview_split_right(&w, v)) && w.data == o.data && w.size == o.size);
			strview_t r;
			T("trim of an invalid set", (r = strview_trim(o, v), r.data == o.data && r.size == o.size));
			T("trim_start of an invalid set", (r = strview_trim_start(o, v), r.data == o.data && r.size == o.size));
			T("trim_end of an invalid set", (r = strview_trim_end(o, v), r.data == o.data && r.size == o.size));
		}
		char d[4] = {'#','#','#','#'};
		T("to_cstr", strview_to_cstr(d, 4, v) == d && d[0] == 0 && d[1] == '#' && strview_to_cstr(d, 0, v) == d && strview_to_cstr(NULL, 4, v) == NULL && strview_to_cstr(NULL, 0, o) == NULL);
	}

	vh_section("number conversions of a missing or invalid view");
	for(opt=0; opt<64; opt++)
	{
		if(!vh_slice()) continue;
		#define N1(name, type) if(vh_case()) { type d, was; strview_t v = iv0; memset(&d, 0x33, sizeof(d)); memcpy(&was, &d, sizeof(d)); VH_DESC("strnum_consume_" #name " options %d", opt); VH_NONTRIV(1); \
			VH_CHECK(strnum_consume_##name(&d, NULL, opt) == EINVAL && strnum_consume_##name(NULL, NULL, opt) == EINVAL, "strnum_consume_" #name " with a NULL source did not return EINVAL"); \
			VH_CHECK(strnum_consume_##name(&d, &v, opt) == EINVAL && strnum_consume_##name(NULL, &v, opt) == EINVAL && strnum_value(&d, &v, opt) == EINVAL, "strnum_consume_" #name " of an invalid view did not return EINVAL"); \
			VH_CHECK(INV(v) && !memcmp(&d, &was, sizeof(d)), "strnum_consume_" #name " of an invalid view changed something"); vh->trans += 4; }
		TYPES(N1)
		#define N2(name, type) if(vh_case()) { VH_DESC("strnum_" #name " options %d", opt); VH_NONTRIV(1); VH_CHECK(strnum_##name(iv0, (type)77, opt) == (type)77, "strnum_" #name " of an invalid view did not return the default"); }
		CONV(N2)
	}
	return vh_end();
}
