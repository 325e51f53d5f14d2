//	C25 accuracy of the floating point conversions
#include "refnum.h"
#ifndef TOL
#define TOL 5.0
#endif
static vh_slot_t slot;
static void one(const unsigned char* t, int n, int ft)
{
	static rfloat_t f;
	if(!vh_case()) return;
	VH_DESC("%s of %s", ftype[ft], vh_q(t, n));
	const char* p = vh_slot_set(&slot, t, n, n & 7);
	strview_t v = {p, n};
	float a = 1; double b = 1; long double c = 1, got;
	int err = ft == 0 ? strnum_value(&a, &v, 0) : ft == 1 ? strnum_value(&b, &v, 0) : strnum_value(&c, &v, 0);
	got = ft == 0 ? (long double)a : ft == 1 ? (long double)b : c;
	vh->trans++;
	if(r_float(t, n, 0, &f)) vh_fail("harness: bad text");
	VH_NONTRIV(err == 0 && got != 0);
	const char* bad = r_fjudge(&f, ft, err, got, TOL);
	if(bad)
	{
		__float128 x = strtof128(f.clean, NULL);
		vh_fail("%s of %s: %s (got %.21Lg, error %d, expected about %.21Lg, off by %g units in the last place)", ftype[ft], vh_q(t, n), bad, got, err, (long double)x, (double)(((__float128)got - (f.neg ? -x : x))/r_ulp(x, ft)));
	}
	VH_CHECK(err || v.size == 0, "%s of %s: %d characters left", ftype[ft], vh_q(t, n), v.size);
}
static void all3(const char* fmt, ...) __attribute__((format(printf,1,2)));
static void all3(const char* fmt, ...)
{
	static unsigned char t[8000];
	va_list va;
	va_start(va, fmt);
	int n = vsnprintf((char*)t, sizeof(t), fmt, va);
	va_end(va);
	for(int ft=0; ft<3; ft++) one(t, n, ft);
}
//	a long text, judged against a short text of the same value (or so near that it makes no difference)
static void same(const char* what, int cnt, unsigned char* t, int n, const char* eq, int neq)
{
	static rfloat_t f;
	for(int ft=0; ft<3; ft++)
	{
		if(!vh_case()) continue;
		VH_DESC("%s: %s with %d digits, worth %s", ftype[ft], what, cnt, eq);
		const char* p = vh_slot_set(&slot, t, n, n & 7);
		strview_t v = {p, n};
		float a = 1; double b = 1; long double c = 1, got;
		int err = ft == 0 ? strnum_value(&a, &v, 0) : ft == 1 ? strnum_value(&b, &v, 0) : strnum_value(&c, &v, 0);
		got = ft == 0 ? (long double)a : ft == 1 ? (long double)b : c;
		vh->trans++;
		VH_NONTRIV(1);
		if(r_float((const unsigned char*)eq, neq, 0, &f)) vh_fail("harness: bad text");
		const char* bad = r_fjudge(&f, ft, err, got, TOL);
		VH_CHECK(!bad, "%s: %s with %d digits, worth %s: %s (got %.21Lg, error %d)", ftype[ft], what, cnt, eq, bad, got, err);
		VH_CHECK(err || v.size == 0, "%s: %s with %d digits: %d characters left", ftype[ft], what, cnt, v.size);
	}
}
static void magnitudes(void)
{
	static const int C[] = {255, 256, 9999, 16384, 32767, 32768, 32769, 40000, 65535, 65536, 65537, 70000, 131072};
	static const char* D[] = {"1", "123456789012345678901234567890", "99999999999999999999", "5"};
	static const int E[] = {0, 1, -1, 10, -10, 30, -30, 300, -300, 4900, -4900};
	static unsigned char t[300000];
	char eq[100];
	vh_section("counts of digits and zeros beyond 16 bits");
	for(int i=0; i<13; i++) for(int e=0; e<11; e++) 
	{
		if(!vh_slice()) continue;
		for(int d=0; d<4; d++)
		{
			int c = C[i], n, k = (int)strlen(D[d]), m;
			m = sprintf(eq, "%se%d", D[d], E[e]);
			//	zeros of the fraction
			n = sprintf((char*)t, "0."); memset(t+n, '0', c); n += c; n += sprintf((char*)t+n, "%se%d", D[d], c+k+E[e]); same("leading zeros of the fraction", c, t, n, eq, m);
			//	zeros of the integer
			n = sprintf((char*)t, "%s", D[d]); memset(t+n, '0', c); n += c; n += sprintf((char*)t+n, "e%d", E[e]-c); same("trailing zeros of the integer", c, t, n, eq, m);
			memset(t, '0', c); n = c; n += sprintf((char*)t+n, "%se%d", D[d], E[e]); same("leading zeros of the integer", c, t, n, eq, m);
			n = sprintf((char*)t, "%s.", D[d]); memset(t+n, '0', c); n += c; n += sprintf((char*)t+n, "e%d", E[e]); same("trailing zeros of the fraction", c, t, n, eq, m);
			n = sprintf((char*)t, "%se%s", D[d], E[e] < 0 ? "-" : d & 1 ? "+" : ""); memset(t+n, '0', c); n += c; n += sprintf((char*)t+n, "%d", abs(E[e])); same("leading zeros of the exponent", c, t, n, eq, m);
		}
		//	digits
		if(vh_thorough || C[i] <= 40000) for(int d='1'; d<='9'; d+=vh_thorough?1:4)
		{
			int c = C[i], n, m;
			m = sprintf(eq, "0."); memset(eq+m, d, 70); m += 70; m += sprintf(eq+m, "e%d", E[e]);
			n = sprintf((char*)t, "0."); memset(t+n, d, c); n += c; n += sprintf((char*)t+n, "e%d", E[e]); same("fraction", c, t, n, eq, m);
			memset(t, d, c); n = c; n += sprintf((char*)t+n, "e%d", E[e]-c); same("integer", c, t, n, eq, m);
		}
	}
}
static int range10[3] = {60, 340, 5000};
int main(int argc, char** argv)
{
	vh_init(argc, argv);
	vh_slot_init(&slot, 300000);
	int ft, e, i, j, k, n;
	static unsigned char t[8000];
	static char pat[12][7000];
	static const char* src[12] = {"9", "1234567890", "1", "5", "10", "0123456789", "4294967295", "18446744073709551616", "99999999999999999999000000000000000000001", "16777217", "9007199254740993", "123456789012345678901234567890987654321"};
	int np = 12;
	for(i=0; i<np; i++) { k = (int)strlen(src[i]); for(j=0; j<6999; j++) pat[i][j] = src[i][j%k]; }

	vh_section("integers which are exact");
	{
		long step = vh_thorough ? 1 : 7, max = 1L<<24;
		for(long b=0; b<max; b+=1<<16)
		{
			if(!vh_slice()) continue;
			for(long v=b; v<b+(1<<16) && v<=max; v+=step)
			{
				if(!vh_case()) continue;
				n = sprintf((char*)t, "%ld", v);
				VH_NONTRIV(1);
				VH_DESC("float %ld", v);
				strview_t s = {vh_slot_set(&slot, t, n, 0), n};
				float f = -1; double d = -1; long double l = -1;
				VH_CHECK(!strnum_value(&f, &s, 0) && f == (float)v && !s.size, "float of %ld gave %.9g", v, f);
				s = (strview_t){(char*)slot.p, n};
				VH_CHECK(!strnum_value(&d, &s, 0) && d == (double)v && !s.size, "double of %ld gave %.17g", v, d);
				s = (strview_t){(char*)slot.p, n};
				VH_CHECK(!strnum_value(&l, &s, 0) && l == (long double)v && !s.size, "long double of %ld gave %.21Lg", v, l);
				vh->trans += 3;
			}
		}
		for(e=0; e<64; e++)
		{
			if(!vh_slice()) continue;
			for(k=-300; k<=300; k++)
			{
				unsigned long long v = (1ull<<e) + k;
				if(k < 0 && (1ull<<e) < (unsigned)-k) continue;
				if(!vh_case()) continue;
				n = sprintf((char*)t, "%llu", v);
				VH_NONTRIV(1);
				VH_DESC("exact %llu", v);
				float f = -1; double d = -1; long double l = -1;
				for(int z=0; z<4; z++)		// with leading zeros, with a point, with a fraction of zeros
				{
					int zeros = z == 1 ? 30 : z == 2 ? 700 : 0;
					memset(t, '0', zeros);
					n = zeros + sprintf((char*)t+zeros, z == 3 ? "%llu.000" : z == 2 ? "%llu." : "%llu", v);
					char* p = vh_slot_set(&slot, t, n, 0);
					strview_t s = {p, n};
					if(v <= 1ull<<FLT_MANT_DIG) VH_CHECK(!strnum_value(&f, &s, 0) && f == (float)v && !s.size, "float of %s gave %.9g", vh_q(t,n), f);
					s = (strview_t){p, n};
					if(v <= 1ull<<DBL_MANT_DIG) VH_CHECK(!strnum_value(&d, &s, 0) && d == (double)v && !s.size, "double of %s gave %.17g", vh_q(t,n), d);
					s = (strview_t){p, n};
					VH_CHECK(!strnum_value(&l, &s, 0) && l == (long double)v && !s.size, "long double of %s gave %.21Lg", vh_q(t,n), l);
					vh->trans += 3;
				}
			}
		}
	}
	vh_section("every exponent");
	{
		static const char* m[] = {"1", "9.999999999999999999999", "1.5", "4.9406564584124654", "0.001234567", "123456789012345678901234567890", "3.4028234663852886", "1.7976931348623157", "1.18973149535723176502", "7", "2.2250738585072014", "1.17549435"};
		for(e=-5100; e<=5100; e++)
		{
			if(!vh_slice()) continue;
			for(i=0; i<(vh_thorough?12:(e >= -400 && e <= 400) ? 12 : 6); i++)
				for(ft=0; ft<3; ft++)
				{
					if(ft < 2 && (e > range10[ft] || e < -range10[ft]) && e%50) continue;
					n = sprintf((char*)t, "%s%c%d", m[i], e&1?'e':'E', e);
					one(t, n, ft);
				}
		}
	}
	vh_section("digits before and after the point, and exponent");
	{
		static const int ex[] = {0, 1, -1, 5, -7, 20, -20, 38, -45, 60, -64, 300, -310, 308, -4000, 4000, 4900, -4950, 10, -30};
		int dn = vh_thorough ? 60 : 26;
		for(i=0; i<np; i++) for(j=0; j<=dn; j++)
		{
			if(!vh_slice()) continue;
			for(k=0; k<=dn; k++) for(e=0; e<(vh_thorough?20:12); e++)
			{
				if(!j && !k) continue;
				if(k) all3("%.*s.%.*se%d", j, pat[i], k, pat[(i+3)%np], ex[e]);
				else all3("%.*se%d", j, pat[i], ex[e]);
			}
		}
	}
	vh_section("exponent compensating many digits or zeros");
	for(i=0; i<np; i++)
		for(k=0; k<=(vh_thorough?700:330); k+= k<64 ? 1 : 7)
		{
			if(!vh_slice()) continue;
			static char z[7000];
			memset(z, '0', sizeof(z));
			for(n=1; n<=40; n+=(vh_thorough?1:13))
				for(e=-3; e<=3; e++)
				{
					int x = e*(vh_thorough?9:13);
					all3("0.%.*s%.*se%d", k, z, n, pat[i], k+x);			// leading zeros of the fraction
					all3("%.*s%.*se%d", n, pat[i], k, z, -k+x);				// trailing zeros of the integer
					all3("%.*s.%.*se%d", k, z, n, pat[i], x);				// leading zeros of the integer
					all3("%.*s.%.*s%.*se%d", n, pat[i], k, z, n, pat[i], x);	// zeros inside
					all3("%.*se%d", n+k, pat[i], -k+x);
					all3("0.%.*se%d", n+k, pat[i], x);
				}
		}
	vh_section("very many digits or zeros");
	{
		static const int cnt[] = {1000, 2000, 3000, 4931, 4932, 4933, 4951, 5000, 6000};
		static char z[7000];
		memset(z, '0', sizeof(z));
		for(i=0; i<9; i++) for(j=0; j<np; j++)
		{
			if(!vh_slice()) continue;
			for(e=-6; e<=6; e++)
			{
				int x = e == -6 ? -cnt[i] : e == 6 ? cnt[i] : e*3;
				all3("0.%.*s%.*se%d", cnt[i], z, 20, pat[j], cnt[i]+e);
				all3("%.*s%.*se%d", 20, pat[j], cnt[i], z, -cnt[i]+e);
				all3("%.*se%d", cnt[i], pat[j], x);
				all3(".%.*se%d", cnt[i], pat[j], x);
				all3("%.*s.%.*se%d", cnt[i]/3, pat[j], cnt[i]/2, pat[j], x);
			}
		}
	}
	vh_section("every short mantissa");
	{
		int mx = vh_thorough ? 10000 : 1000, digits = vh_thorough ? 4 : 3;
		for(e=-330; e<=330; e += (e >= -50 && e < 45) ? 1 : 11)
		{
			if(!vh_slice()) continue;
			for(i=0; i<mx; i++)
			{
				char s[12]; sprintf(s, "%0*d", digits, i);
				k = 1 + (i+e+330)%digits;
				all3("%.*s.%se%d", k, s, s+k, e);
			}
		}
	}
	vh_section("around the limits of each type");
	for(ft=0; ft<3; ft++)
	{
		if(!vh_slice()) continue;
		long double lim[4];
		lim[0] = ft == 0 ? FLT_MAX : ft == 1 ? DBL_MAX : LDBL_MAX;
		lim[1] = ft == 0 ? FLT_MIN : ft == 1 ? DBL_MIN : LDBL_MIN;
		lim[2] = ft == 0 ? FLT_TRUE_MIN : ft == 1 ? DBL_TRUE_MIN : LDBL_TRUE_MIN;
		lim[3] = 1;
		for(i=0; i<4; i++) for(k=1; k<45; k++)
		{
			n = sprintf((char*)t, "%.*Le", k, lim[i]);
			one(t, n, ft);
			//	last digits varied, so as to go through the limit
			char* ep = strchr((char*)t, 'e');
			int at = (int)(ep - (char*)t) - 1;
			for(int q=0; q<10; q++)
			{
				t[at] = '0'+q; one(t, n, ft);
				if(at > 2) { unsigned char keep = t[at-1]; for(int r=0; r<10; r++) { t[at-1] = '0'+r; one(t, n, ft); } t[at-1] = keep; }
			}
		}
		//	the limits written out in full
		for(i=0; i<4; i++)
		{
			n = sprintf((char*)t, "%.*Lf", i ? 5200 : 0, lim[i]);
			one(t, n, ft);
			n = sprintf((char*)t, "-%.*Lf", i ? 5200 : 0, lim[i]);
			one(t, n, ft);
		}
	}
	magnitudes();
	if(getenv("VH_WORST")) fprintf(stderr, "worst %g %g %g\n", worst_ulp[0], worst_ulp[1], worst_ulp[2]);
	return vh_end();
}
