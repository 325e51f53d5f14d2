//	C30 behaviour of one build configuration. Compiled with the defines of the configuration, EXPECT_STEP, and APP_DEFAULT if the
//	application defines strbuf_default_allocator itself.
#include "bufmodel.h"
#include "refview.h"
#include "strnum.h"
#include "numcall.h"
#ifdef ACCESSORIES
#include "strbuf_io.h"
#include "strview_io.h"
#include "strbuf_crypt.h"
#include "strbuf_pack.h"
#include "strview_unpack.h"
#include "refaes.h"
#endif
#ifdef APP_DEFAULT
strbuf_allocator_t strbuf_default_allocator = { .app_data = &arena_appdata[2], .allocator = arena_alloc };
#endif
#ifdef STRBUF_PROVIDE_PRINTF
static strview_t w_vprintf(strbuf_t** b, const char* f, ...) { va_list va; va_start(va, f); strview_t r = strbuf_vprintf(b, f, va); va_end(va); return r; }
static strview_t w_avprintf(strbuf_t** b, const char* f, ...) { va_list va; va_start(va, f); strview_t r = strbuf_append_vprintf(b, f, va); va_end(va); return r; }
#endif
#ifdef STRBUF_PROVIDE_PRNF
static strview_t w_vprnf(strbuf_t** b, const char* f, ...) { va_list va; va_start(va, f); strview_t r = strbuf_vprnf(b, f, va); va_end(va); return r; }
static strview_t w_avprnf(strbuf_t** b, const char* f, ...) { va_list va; va_start(va, f); strview_t r = strbuf_append_vprnf(b, f, va); va_end(va); return r; }
#endif
#define HOLDS(b, txt) ((b) && (b)->size == (int)strlen(txt) && !memcmp((b)->cstr, (txt), strlen(txt)+1))

//	explicit state exploration of the buffer in this configuration
static unsigned char store[200][16];
static m_t st[200]; static int ns;
static int find(const m_t* m)
{
	for(int i=0; i<ns; i++) if(st[i].kind == m->kind && st[i].cap == m->cap && st[i].size == m->size && !memcmp(st[i].b, m->b, m->size)) return i;
	return -1;
}
static int depth_of[200], cur;
static void one(const act_t* a, void* c)
{
	(void)c;
	if(!vh_case()) return;
	VH_DESC("%s on %s", a_str(a), m_str(&st[cur]));
	VH_NONTRIV(1);
	bm_step(&st[cur], a);
	m_t w = { .b = bm_w };
	bool v, mc;
	m_apply(&st[cur], a, &w, &v, &mc);
	if(w.size <= 6 && w.cap <= EXPECT_STEP*2+8 && !mc && ns < 200 && find(&w) < 0 && depth_of[cur] < 3)
	{
		memcpy(store[ns], w.b, w.size);
		st[ns] = (m_t){w.kind, w.cap, w.size, store[ns]};
		depth_of[ns] = depth_of[cur]+1;
		if((unsigned long)depth_of[ns] > vh->maxdepth) vh->maxdepth = depth_of[ns];
		ns++;
	}
}
static void integers(void)
{
	#define I(ty, fn, text, val, e) if(vh_case()) { ty d = 3; strview_t s = cstr_SL(text); int r = strnum_value(&d, &s, 0); VH_DESC(#fn " of %s", text); VH_NONTRIV(1); \
		VH_CHECK(r == (e), "strnum_value of %s as " #ty " returned %d, expected %d", text, r, (e)); if(!r) VH_CHECK(d == (ty)(val) && s.size == 0, "strnum_value of %s as " #ty " is wrong", text); else VH_CHECK(d == 3 && s.size == (int)strlen(text), "strnum_value of %s as " #ty ": changed on error", text); \
		VH_CHECK(strnum_##fn(cstr_SL(text), (ty)9, 0) == (ty)((e) ? 9 : (val)), "strnum_" #fn " of %s is wrong", text); d = 3; s = cstr_SL(text); VH_CHECK(strnum_consume_##fn(&d, &s, 0) == (e), "strnum_consume_" #fn " of %s", text); vh->trans += 3; }
	I(unsigned char, uchar, "255", 255, 0) I(unsigned char, uchar, "256", 0, ERANGE) I(unsigned char, uchar, "-1", 0, EINVAL) I(unsigned short, ushort, "0xfFfF", 65535, 0) I(unsigned short, ushort, "65536", 0, ERANGE)
	I(unsigned int, uint, "4294967295", UINT_MAX, 0) I(unsigned int, uint, "4294967296", 0, ERANGE) I(unsigned long, ulong, "18446744073709551615", ULONG_MAX, 0) I(unsigned long, ulong, "18446744073709551616", 0, ERANGE)
	I(unsigned long long, ullong, "0b101", 5, 0) I(unsigned long long, ullong, "99999999999999999999999", 0, ERANGE) I(char, char, "-128", -128, 0) I(char, char, "128", 0, ERANGE) I(short, short, "-32768", -32768, 0) I(short, short, "-32769", 0, ERANGE)
	I(int, int, "  -2147483648", INT_MIN, 0) I(int, int, "2147483648", 0, ERANGE) I(int, int, "x", 0, EINVAL) I(long, long, "-9223372036854775808", LONG_MIN, 0) I(long, long, "9223372036854775808", 0, ERANGE) I(long long, llong, "+0x7FFFFFFFFFFFFFFF", LLONG_MAX, 0) I(long long, llong, "", 0, EINVAL)
	#define J(fn, text, val) if(vh_case()) { VH_DESC("strnum_" #fn " %s", text); VH_CHECK(strnum_##fn(cstr_SL(text), 7, 0) == (val), "strnum_" #fn " of %s is wrong", text); vh->trans++; }
	J(i8, "-128", -128) J(i8, "128", 7) J(i16, "32767", 32767) J(i16, "32768", 7) J(i32, "-2147483648", INT32_MIN) J(i32, "2147483648", 7) J(i64, "9223372036854775807", INT64_MAX) J(i64, "9223372036854775808", 7)
	J(u8, "255", 255) J(u8, "256", 7) J(u16, "65535", 65535) J(u16, "-1", 7) J(u32, "4294967295", UINT32_MAX) J(u32, "4294967296", 7) J(u64, "18446744073709551615", UINT64_MAX) J(u64, "18446744073709551616", 7)
	//	every value of a small range in this build
	for(int v=-300; v<=300; v++)
	{
		char t[20];
		if(!vh_case()) continue;
		sprintf(t, "%d", v);
		VH_CHECK(strnum_int(cstr(t), 1000, 0) == v, "strnum_int of %s", t);
		VH_CHECK(strnum_u8(cstr(t), 99, 0) == (v < 0 || v > 255 ? 99 : v), "strnum_u8 of %s", t);
		VH_CHECK(strnum_i8(cstr(t), 99, 0) == (v < -128 || v > 127 ? 99 : v), "strnum_i8 of %s", t);
		vh->trans += 3;
	}
	#ifndef STRNUM_NOFLOAT
	#define FL(ty, fn, text, val) if(vh_case()) { ty d = 3; strview_t s = cstr_SL(text); int r = strnum_value(&d, &s, 0); VH_DESC(#fn " of %s", text); VH_CHECK(!r && d == (ty)(val) && !s.size, "strnum_value of %s as " #ty, text); \
		VH_CHECK(strnum_##fn(cstr_SL(text), 9, 0) == (ty)(val), "strnum_" #fn " of %s", text); s = cstr_SL(text); VH_CHECK(!strnum_consume_##fn(&d, &s, 0), "strnum_consume_" #fn); vh->trans += 3; }
	FL(float, float, "-1.5e1", -15) FL(double, double, "0.25", 0.25) FL(long double, ldouble, "12345", 12345)
	if(vh_case()) { double d; strview_t s = cstr_SL("inf"); VH_CHECK(!strnum_value(&d, &s, 0) && d > 1e308, "inf"); VH_CHECK(strnum_double(cstr_SL("1e999"), 5, 0) == 5, "overflow"); }
	#endif
}
int main(int argc, char** argv)
{
	vh_init(argc, argv);
	bm_init(600, 3000);
	if(STRBUF_CAPACITY_GROW_STEP != EXPECT_STEP) vh_fail("STRBUF_CAPACITY_GROW_STEP is %d, expected %d", (int)STRBUF_CAPACITY_GROW_STEP, EXPECT_STEP);
	chk = F_CONTENT|F_VIEW|F_INV|F_FIXED|F_CAP|F_ALLOC|F_SRC;
	vh_slice();
	vh_section("default allocator");
	if(vh_case())
	{
		VH_DESC("creation without an allocator");
		VH_NONTRIV(1);
		arena_reset(false);
		strbuf_t* b = strbuf_create(5, NULL);
		strbuf_t* c = strbuf_create(cstr_SL("hello"), NULL);
		#if defined(STRBUF_DEFAULT_ALLOCATOR_STDLIB)
		VH_CHECK(b && c && HOLDS(b, "") && HOLDS(c, "hello") && arena_calls == 0, "the stdlib default allocator does not work");
		for(int i=0; i<300; i++) strbuf_append(&c, "x");
		VH_CHECK(c->size == 305 && c->capacity == roundup(305) || c->capacity >= 305, "growing with the stdlib allocator");
		strbuf_destroy(&b); strbuf_destroy(&c);
		VH_CHECK(!b && !c, "destroy");
		#elif defined(APP_DEFAULT)
		VH_CHECK(b && c && HOLDS(b, "") && HOLDS(c, "hello"), "the application's strbuf_default_allocator is not used");
		VH_CHECK(arena_live_count() == 2 && b->allocator.app_data == &arena_appdata[2] && b->allocator.allocator == arena_alloc, "the application's strbuf_default_allocator is not used as it is");
		strbuf_append(&c, " and a text which needs to grow");
		strbuf_destroy(&b); strbuf_destroy(&c);
		VH_CHECK(arena_live_count() == 0, "leak with the application's default allocator");
		#else
		VH_CHECK(!b && !c, "a buffer created without any allocator is not NULL");
		#endif
	}
	vh_section("buffer operations");
	{
		static const unsigned char x[] = "cab\0dqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq";
		static const int caps[] = {0, 1, 3, EXPECT_STEP-1, EXPECT_STEP, EXPECT_STEP+1};
		for(int k=0; k<3; k++) for(int c=0; c<6; c++) if(caps[c] >= 0 && caps[c] < 2000 && (c < 3 || caps[c] > 3))
		{
			st[ns] = (m_t){k, caps[c], 0, store[ns]}; depth_of[ns] = 0; ns++;
		}
		for(cur=0; cur<ns; cur++)
		{
			vh->states++;
			src_t s[60];
			int n = 0;
			s[n++] = (src_t){S_EXT, 0, 1, x};
			s[n++] = (src_t){S_EXT, 0, 4, x};
			if(st[cur].size) s[n++] = (src_t){S_INT, st[cur].size/2, st[cur].size - st[cur].size/2};
			s[n++] = (src_t){S_CSTR, 0, 2, x};
			each_action(&st[cur], s, n, OPALL & ~(1u<<OP_GROW), false, one, NULL);
			if(EXPECT_STEP < 500)
			{
				//	growth over one and two steps
				static unsigned char big[1200]; memset(big, 'G', sizeof(big));
				for(int g=-1; g<=1; g++) for(int q=1; q<=2; q++)
				{
					int l = EXPECT_STEP*q + g;
					if(l > 590 || l < 0) continue;
					act_t a = { .op = OP_APPEND, .n = 1, .s = {{S_EXT, 0, l, big}} };
					one(&a, NULL);
				}
			}
			for(int g=0; g<=40; g+=5) { act_t a = { .op = OP_GROW, .idx = g }; one(&a, NULL); }
		}
	}
	vh_section("formatted output");
	for(int k=0; k<3; k++) for(int len=0; len<40; len++)
	{
		if(!vh_case()) continue;
		VH_DESC("%d characters to kind %d", len, k);
		VH_NONTRIV(len);
		char w[200];
		m_t m = {k, 20, 0, store[0]};
		strbuf_t* b = bm_make(&m);
		(void)b; (void)w;
		#define FM(call, pre) do{ strbuf_assign(&b, cstr_SL("ab")); int cap = b->capacity; strview_t r = call; snprintf(w, sizeof(w), "%s%*d|", pre, len, 7); if(k == K_FIXED && (int)strlen(w) > cap) w[0] = 0; \
			VH_CHECK(HOLDS(b, w) && r.data == b->cstr && r.size == b->size, #call " gave %s, expected %s", vh_q(b->cstr, b->size), vh_q(w, strlen(w))); \
			VH_CHECK((int)strlen(w) <= cap ? b->capacity == cap : b->capacity % EXPECT_STEP == 0, #call ": capacity %d", b->capacity); vh->trans++; }while(0)
		#ifdef STRBUF_PROVIDE_PRINTF
		FM(strbuf_printf(&b, "%*d|", len, 7), ""); FM(w_vprintf(&b, "%*d|", len, 7), ""); FM(strbuf_append_printf(&b, "%*d|", len, 7), "ab"); FM(w_avprintf(&b, "%*d|", len, 7), "ab");
		#endif
		#ifdef STRBUF_PROVIDE_PRNF
		char f[20]; sprintf(f, "%%%dd|", len ? len : 1);
		FM(strbuf_prnf(&b, f, 7), ""); FM(w_vprnf(&b, f, 7), ""); FM(strbuf_append_prnf(&b, f, 7), "ab"); FM(w_avprnf(&b, f, 7), "ab");
		#endif
	}
	vh_section("integer conversion");
	integers();
	vh_section("integer texts");
	{
		//	every short text, against the reference, whatever this build leaves out
		static const unsigned char al[] = " -+019xXbBf";
		static const int types[] = {0, 7, 9};
		unsigned char t[8];
		vh_slot_init(&nslot, 16);
		for(int n=0; n<=4; n++) for(long x=0; x<vh_pow(11, n); x++) if(vh_slice())
		{
			vh_text(t, x, n, al, 11);
			char* p = vh_slot_set(&nslot, t, n, 0);
			for(int o=0; o<(n < 4 ? 32 : 6); o++)
			{
				if(!vh_case()) continue;
				VH_DESC("%s, %s", vh_q(t, n), opt_str(o));
				judge_int(t, n, p, types[(x+o)%3], o, J_VALUE|J_SRC|J_ERR, x & 1);
			}
		}
	}
	vh_section("views");
	{
		static const unsigned char al[] = {'a', ',', '"', '\n'};
		unsigned char t[8];
		for(int n=0; n<=5; n++) for(long x=0; x<vh_pow(4, n); x++)
		{
			if(!vh_case()) continue;
			vh_text(t, x, n, al, 4);
			strview_t v = RV((char*)t, n), a = v, b = v;
			VH_DESC("view %s", vh_q(t, n));
			VH_NONTRIV(n);
			strview_t r = strview_split_first_delim(&a, ",\n", true), w = r_first_delim(&b, ",\n", true);
			VH_CHECK(r.size == w.size && r.data == w.data && a.size == b.size, "split_first_delim of %s", vh_q(t, n));
			VH_CHECK(strview_find_last(v, cstr_SL("a")).data == r_find(v, cstr_SL("a"), true, false).data, "find_last in %s", vh_q(t, n));
			VH_CHECK(strview_trim(v, "\"").size == r_trim(v, cstr_SL("\""), 3).size, "trim of %s", vh_q(t, n));
			char p1 = 0, p2 = 0;
			a = b = v;
			r = strview_split_line(&a, &p1); w = r_line(&b, &p2);
			VH_CHECK(!r.data == !w.data && r.size == w.size && a.size == b.size, "split_line of %s", vh_q(t, n));
			vh->trans += 4;
		}
	}
	#ifdef ACCESSORIES
	vh_section("accessories");
	if(vh_case())
	{
		uint8_t key[32], iv[16], w[64];
		VH_DESC("accessories");
		ra_tables();
		for(int i=0; i<32; i++) key[i] = i*9, iv[i&15] = i;
		for(int k=0; k<3; k++) for(int n=0; n<40; n++)
		{
			m_t m = {k, 64, 0, store[0]};
			strbuf_t* b = bm_make(&m);
			for(int i=0; i<n; i++) { w[i] = 'a'+i%26; strbuf_append_char(&b, w[i]); }
			int e = ra_encrypt(key, iv, w, n);
			strbuf_encrypt(&b, key, iv);
			VH_CHECK(b->size == e && !memcmp(b->cstr, w, e), "strbuf_encrypt of %d bytes is wrong in this configuration", n);
			strbuf_decrypt(&b, key, iv);
			VH_CHECK(b->size == n && (!n || b->cstr[n-1] == 'a'+(n-1)%26), "strbuf_decrypt of %d bytes is wrong in this configuration", n);
			uint32_t u = 0x01020304, q = 0; STRBUF_PACK_BE(&b, u);
			strview_t v = strview_sub(strbuf_view(&b), n, INT_MAX);
			STRVIEW_UNPACK_BE(q, v);
			VH_CHECK(q == u && b->cstr[n] == 1, "packing is wrong in this configuration");
			int fd[2];
			if(pipe(fd)) vh_fail("harness: no pipe");
			VH_CHECK(strbuf_write(fd[1], &b) == n+4 && b->size == 0 && strbuf_append_read(&b, fd[0]) == n+4 && b->size == n+4, "streams are wrong in this configuration");
			v = strbuf_view(&b);
			VH_CHECK(strview_write(fd[1], &v) == n+4 && v.size == 0, "strview_write is wrong in this configuration");
			close(fd[0]); close(fd[1]);
			vh->trans += 6;
		}
	}
	#endif
	return vh_end();
}
