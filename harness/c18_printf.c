//	C18 formatted output
#include "bufmodel.h"
#include "triple.h"
#include "huge.h"
#include "prnf.h"
#include <wchar.h>
#include <errno.h>
enum { PF, APF, VPF, VAPF, PN, APN, VPN, VAPN };
static const char* nm[] = {"printf","append_printf","vprintf","append_vprintf","prnf","append_prnf","vprnf","append_vprnf"};
static unsigned char out[70000]; static int out_n;
static void put(void* v, char c) { if(out_n < (int)sizeof(out)) out[out_n] = c; out_n++; }
static strview_t via_va(int f, strbuf_t** b, const char* fmt, ...)
{
	va_list va; strview_t r;
	va_start(va, fmt);
	r = f == VPF ? strbuf_vprintf(b, fmt, va) : f == VAPF ? strbuf_append_vprintf(b, fmt, va) : f == VPN ? strbuf_vprnf(b, fmt, va) : strbuf_append_vprnf(b, fmt, va);
	va_end(va);
	return r;
}
static strbuf_t* B; static strview_t R;
static m_t M; static int fn; static const char* FMT;
static unsigned char init[64];
//	judge B against: the previous content (if appending) and the reference output, n < 0 if the formatter fails
static void judge(strbuf_t* was, int n)
{
	static unsigned char e[80000];
	int s = 0;
	bool app = fn == APF || fn == VAPF || fn == APN || fn == VAPN;
	if(n >= 0)
	{
		if(app) { memcpy(e, M.b, M.size); s = M.size; }
		memcpy(e+s, out, n); s += n;
		if(M.kind == K_FIXED && s > M.cap) s = 0;
	}
	VH_CHECK(B && B->size == s && !memcmp(B->cstr, e, s) && B->cstr[s] == 0, "%s(\"%s\") on %s gave %s, expected %s", nm[fn], FMT, m_str(&M), vh_q(B->cstr, B->size), vh_q(e, s));
	VH_CHECK(R.data == B->cstr && R.size == s, "%s(\"%s\") on %s: the returned view is not the content", nm[fn], FMT, m_str(&M));
	if(M.kind == K_FIXED) VH_CHECK(B == was && B->capacity == M.cap, "%s on %s changed the buffer", nm[fn], m_str(&M));
	else VH_CHECK(B->capacity >= s && arena_live_count() == 1, "%s on %s: capacity %d for %d", nm[fn], m_str(&M), B->capacity, s);
	vh->trans++; vh->traces++;
}
#define CALL(...) (fn == PF ? strbuf_printf(&B, __VA_ARGS__) : fn == APF ? strbuf_append_printf(&B, __VA_ARGS__) : fn == PN ? strbuf_prnf(&B, __VA_ARGS__) : fn == APN ? strbuf_append_prnf(&B, __VA_ARGS__) : via_va(fn, &B, __VA_ARGS__))
//	one format with its arguments, through all functions, on all buffers
#define TRY(mask, fmt, ...) do{ \
	int n_, k_, c_, z_; \
	FMT = fmt; \
	for(fn=0; fn<8; fn++) { \
		if(!((mask) >> (fn >= PN) & 1)) continue; \
		if(fn < PN) n_ = snprintf((char*)out, sizeof(out), fmt, ##__VA_ARGS__); \
		else { out_n = 0; fptrprnf(put, NULL, fmt, ##__VA_ARGS__); n_ = out_n; } \
		for(k_=0; k_<NB_KINDS; k_++) for(z_=0; z_<4; z_++) for(c_=0; c_<10; c_++) { \
			static const int zs_[] = {0,1,7,20}; \
			int s_ = zs_[z_], o_ = n_ < 0 ? 0 : n_; \
			int caps_[] = {s_, o_-1, o_, o_+1, o_+s_-1, o_+s_, o_+s_+1, s_+1, 64, 33}; \
			if(caps_[c_] < s_) continue; \
			if(c_ > 6 && !vh_thorough && k_) continue; \
			if(o_ > 400 && !vh_thorough && (c_ < 3 || c_ > 6 || z_ == 1 || z_ == 2) && k_) continue; \
			M = (m_t){k_, caps_[c_], s_, init}; \
			if(!vh_case()) continue; \
			VH_DESC("%s(\"%s\"), output of %d, on %s", nm[fn], fmt, n_, m_str(&M)); \
			VH_NONTRIV(1); \
			B = bm_make(&M); \
			strbuf_t* was_ = B; \
			R = CALL(fmt, ##__VA_ARGS__); \
			if(fn >= PN && 0) {} \
			judge(was_, n_); \
		} \
		vh->states++; \
	} }while(0)
#define BOTH 3
#define ONLY_PRINTF 1
int main(int argc, char** argv)
{
	static char longtxt[66001];
	int i, w;
	vh_init(argc, argv);
	bm_init(3000, 80000);
	chk = F_INV;
	for(i=0; i<64; i++) init[i] = i == 3 || i == 12 ? 0 : i == 5 ? 0xFF : 'A'+i%26;
	for(i=0; i<66000; i++) longtxt[i] = 'a' + i%26;
	vh_section("formats of up to four elements");
	{
		//	strings and numbers alike: every argument is one which the element may take, or unused
		static char* el[] = {"x", "%%", "%d", "%s", "%c", "%5d|", "%.2s", "%-4s", "%x", "\xC3\xA9", " \n"};
		enum { NE = 11 };
		for(int a=0; a<NE; a++) for(int n=1; n<=4; n++)
		{
			if(!vh_slice()) continue;
			int d[4] = {0};
			do
			{
				static char f[64];
				static const char* S[4] = {"str", "", "abcdef", "%d"};
				static const long V[4] = {0, 42, -7, 123456};
				uintptr_t arg[4] = {0}; int m = 0;
				if(n == 4 && !vh_thorough && (d[0] > 4 || d[1] > 4 || d[2] > 4)) continue;
				f[0] = 0;
				for(i=0; i<n; i++)
				{
					char* x = el[i ? d[i-1] : a];
					strcat(f, x);
					if(x[0] == '%' && x[1] != '%') { arg[m] = strchr(x, 's') ? (uintptr_t)S[(i+a)&3] : (uintptr_t)V[(i+d[0])&3]; m++; }
				}
				FMT = f;
				for(fn=0; fn<8; fn++)
				{
					int o;
					if(fn < PN) o = snprintf((char*)out, sizeof(out), f, arg[0], arg[1], arg[2], arg[3]);
					else { if(strstr(f, "%x")) continue; out_n = 0; fptrprnf(put, NULL, f, arg[0], arg[1], arg[2], arg[3]); o = out_n; }
					for(int k=0; k<2; k++) for(int c=0; c<4; c++) for(int z=0; z<2; z++)
					{
						int s = z ? 6 : 0, caps[] = {s, o+s, o+s-1, 40};
						if(caps[c] < s || !vh_case()) continue;
						M = (m_t){k, caps[c], s, init};
						VH_DESC("%s(\"%s\"), output of %d, on %s", nm[fn], f, o, m_str(&M));
						VH_NONTRIV(1);
						B = bm_make(&M);
						strbuf_t* was = B;
						R = CALL(f, arg[0], arg[1], arg[2], arg[3]);
						judge(was, o);
					}
				}
				vh->states++;
			}while(vh_next(d, n-1, NE));
		}
	}
	vh_section("every output length");
	for(w=0; w<=(vh_thorough ? 300 : 150); w++)
	{
		if(!vh_slice()) continue;
		TRY(BOTH, "%.*s", w, longtxt);
	}
	vh_section("numbers, widths and mixtures");
	static const int vals[] = {0,1,-1,9,10,99,-100,12345,-123456,INT_MAX,INT_MIN,65535,1<<24};
	for(i=0; i<13; i++) for(w=0; w<24; w+=3)
	{
		if(!vh_slice()) continue;
		TRY(BOTH, "%i", vals[i]);
		TRY(BOTH, "%*d|", w, vals[i]);
		TRY(BOTH, "<%-*d>", w, vals[i]);
		TRY(BOTH, "x=%u y=%s;", (unsigned)vals[i], "text");
		TRY(BOTH, "%X", (unsigned)vals[i]);
		TRY(ONLY_PRINTF, "%0*lld %c%%", w, (long long)vals[i]*1000003, 'q');
		TRY(ONLY_PRINTF, "%.*f %g", w/2, vals[i]/7.0, vals[i]*1e20);
	}
	vh_section("embedded NUL, empty output, no arguments");
	if(vh_slice())
	{
		TRY(BOTH, "%s", "");
		TRY(BOTH, "plain");
		TRY(BOTH, "%c", 0);
		TRY(BOTH, "a%cb%cc", 0, 0);
		TRY(BOTH, "%c%s", 0, "after");
		TRY(BOTH, "%s%c", "before", 0);
		TRY(BOTH, "%%");
		TRY(BOTH, "%c", 255);
	}
	for(i=0; i<256; i++)
	{
		if(!vh_slice()) continue;
		TRY(BOTH, "[%c]", i);
	}
	vh_section("output much larger than the capacity");
	static const int big[] = {500,511,512,513,1000,1023,1024,1025,2047,2048,2049,4095,4096,4097,6000,32767,32768,65535,65536};
	for(i=0; i<19; i++)
	{
		if(!vh_slice()) continue;
		TRY(BOTH, "%.*s", big[i], longtxt);
		TRY(BOTH, "%*d", big[i], 42);
	}
	vh_section("output beyond the room by every amount");
	for(w=0; w<=(vh_thorough ? 2100 : 1100); w++)
	{
		if(!vh_slice()) continue;
		static const int caps[] = {0, 1, 20, 100, 255, 256, 300};
		for(fn=0; fn<8; fn++) for(int k=0; k<2; k++) for(int c=0; c<7; c++) for(int z=0; z<2; z++)
		{
			M = (m_t){k, caps[c], z ? 17 : 0, init};
			if(M.cap < M.size || !vh_case()) continue;
			if(fn >= PN && w > 600 && k && !vh_thorough) continue;
			FMT = "%.*s";
			VH_DESC("%s, output of %d, on %s", nm[fn], w, m_str(&M));
			VH_NONTRIV(1);
			out_n = w; memcpy(out, longtxt, w);
			B = bm_make(&M);
			strbuf_t* was = B;
			R = CALL("%.*s", w, longtxt);
			judge(was, w);
		}
	}
	vh_section("failing formatter");
	if(vh_slice())
	{
		static const wchar_t bad[] = {L'x', 0x20AC, 0};
		TRY(ONLY_PRINTF, "%ls", bad);
		TRY(ONLY_PRINTF, "before %ls after", bad);
		TRY(ONLY_PRINTF, "%lc", (wint_t)0x3042);
	}
	vh_section("histories of formatted output");
	for(int f0=0; f0<8; f0++) for(int k=0; k<3; k++)
	{
		int s[8] = {0}, D = vh_thorough ? 5 : 4;
		if(!vh_slice()) continue;
		do
		{
			static unsigned char cur[30000];
			if(!vh_case()) continue;
			VH_DESC("sequence %s, %s, %s on a %s buffer", nm[f0], nm[s[0]], nm[s[1]], k ? "dynamic" : "fixed");
			M = (m_t){k, k ? 3 : 25, 0, cur};
			B = bm_make(&M);
			for(i=0; i<D; i++)
			{
				strbuf_t* was = B;
				fn = i ? s[i-1] : f0;
				FMT = "%s-%d.";
				const char* a = (f0+i)%3 ? "seven c" : "twelve chars";
				int n;
				if(fn < PN) n = snprintf((char*)out, sizeof(out), "%s-%d.", a, i);
				else { out_n = 0; fptrprnf(put, NULL, "%s-%d.", a, i); n = out_n; }
				R = CALL("%s-%d.", a, i);
				judge(was, n);
				memcpy(cur, B->cstr, B->size); M.size = B->size; M.cap = B->capacity;
			}
			if((unsigned long)D > vh->maxdepth) vh->maxdepth = D;
		}while(vh_next(s, D-1, 8));
	}
	HUGE_EACH(i)
	{
		int n = HZ[i];
		char* a = huge_text(n+1, 'x');
		a[n] = 0; a[n-1] = 'z';
		strbuf_t* b = strbuf_create(5, NULL);
		strview_t r;
		VH_DESC("output of %d characters", n);
		VH_NONTRIV(1);
		r = strbuf_printf(&b, "%s", a); VH_CHECK(b->size == n && !memcmp(b->cstr, a, n+1) && r.data == b->cstr && r.size == n, "printf of %d characters gave %d", n, b->size);
		r = strbuf_append_printf(&b, "<%s>%*d", a, n, 7); VH_CHECK(b->size == 3*n+2 && !memcmp(b->cstr, a, n) && b->cstr[n] == '<' && !memcmp(b->cstr+n+1, a, n) && b->cstr[2*n+1] == '>' && b->cstr[2*n+2] == ' ' && b->cstr[3*n+1] == '7' && r.data == b->cstr && r.size == 3*n+2, "append_printf of %d characters gave %d", 2*n, b->size);
		strbuf_grow(&b, 3*n+10);
		//	results which just fit, or just do not fit, the capacity
		for(int room=0; room<5; room++)
		{
			int need = n + 3;
			VH_DESC("3 characters onto %d in a capacity of %d", n, n+room);
			strbuf_assign(&b, (strview_t){.data=a, .size=n}); strbuf_shrink(&b); if(room) strbuf_grow(&b, n+room);
			for(int mini=0; mini < (i % 3 == 2 ? 2:1); mini++)
			{
				if(mini) { strbuf_assign(&b, (strview_t){.data=a, .size=n}); strbuf_shrink(&b); if(room) strbuf_grow(&b, n+room); }
				r = mini ? strbuf_append_prnf(&b, "%s", "abc") : strbuf_append_printf(&b, "%s", "abc");
				VH_CHECK(b->size == need && b->capacity >= need && r.data == b->cstr && r.size == need && !memcmp(b->cstr, a, n) && !memcmp(b->cstr+n, "abc", 4), "%s onto %d characters with room for %d gave %d", mini ? "append_prnf":"append_printf", n, room, b->size);
				strbuf_t* f = strbuf_create_fixed(malloc(sizeof(strbuf_t)+n+room+1), sizeof(strbuf_t)+n+room+1);
				void* mem = f;
				strbuf_assign(&f, (strview_t){.data=a, .size=n});
				VH_CHECK(f->capacity == n+room && f->size == n, "fixed buffer of capacity %d holds %d", f->capacity, f->size);
				r = mini ? strbuf_append_prnf(&f, "%s", "abc") : strbuf_append_printf(&f, "%s", "abc");
				if(room < 3)	VH_CHECK(f->size == 0 && f->cstr[0] == 0 && !r.size, "%s onto %d characters of a fixed buffer with room for %d gave %d", mini ? "append_prnf":"append_printf", n, room, f->size);
				else			VH_CHECK(f->size == need && !memcmp(f->cstr, a, n) && !memcmp(f->cstr+n, "abc", 4) && r.size == need, "%s onto %d characters of a fixed buffer with room for %d gave %d", mini ? "append_prnf":"append_printf", n, room, f->size);
				free(mem);
				vh->trans += 2;
			}
		}
		if(i % 3 == 2)
		{
			//	the prnf formatter appends one character at a time
			strbuf_assign(&b, cstr("p")); r = strbuf_append_prnf(&b, "%s|", a); VH_CHECK(b->size == n+2 && b->cstr[0] == 'p' && !memcmp(b->cstr+1, a, n) && !memcmp(b->cstr+n+1, "|", 2) && r.data == b->cstr && r.size == n+2, "append_prnf of %d characters gave %d", n, b->size);
			r = strbuf_prnf(&b, "%s", a); VH_CHECK(b->size == n && !memcmp(b->cstr, a, n+1) && r.size == n, "prnf of %d characters gave %d", n, b->size);
		}
		strbuf_destroy(&b);
		vh->trans += 4;
		free(a);
	}
	{
		static char fx[sizeof(strbuf_t)+40] __attribute__((aligned(16)));
		TRIPLE_EACH(b)
		{
			VH_DESC("%s", vh_q(b, 3));
			VH_NONTRIV(1);
			char z[4] = {b[0], b[1], b[2], 0}, e[20] = "<<";
			int l = strlen(z);
			strview_t r;
			strbuf_t* f = strbuf_create_fixed(fx, sizeof(fx));
			memcpy(e+1, z, l); e[l+1] = '>';
			#define HOLD3(what, len) VH_CHECK(f && f->size == (len) && r.data == f->cstr && r.size == f->size && !f->cstr[f->size] && !memcmp(f->cstr, e, len), what " of %s gave %s", vh_q(z, l), vh_q(f->cstr, f->size))
			r = strbuf_printf(&f, "<%s>", z); HOLD3("printf", l+2);
			r = strbuf_prnf(&f, "<%s>", z); HOLD3("prnf", l+2);
			r = strbuf_assign(&f, cstr("q")); e[0] = 'q'; memcpy(e+1, z, 3);
			r = strbuf_append_printf(&f, "%c%c%c", z[0], z[1], z[2]); HOLD3("append_printf", 4);
			r = strbuf_assign(&f, cstr("q"));
			r = strbuf_append_prnf(&f, "%c%c%c", z[0], z[1], z[2]); HOLD3("append_prnf", 4);
			vh->trans += 4;
		}
		free(b);
	}
	return vh_end();
}
