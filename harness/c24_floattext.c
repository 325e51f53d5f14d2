//	C24 recognition of floating point text
#include "numcall.h"
#include "triple.h"
static rfloat_t F;
static const int fopts[] = {0, STRNUM_NOSIGN, STRNUM_NOSPACE, STRNUM_NOEXP, STRNUM_NOSIGN|STRNUM_NOSPACE, STRNUM_NOSIGN|STRNUM_NOEXP, STRNUM_NOSPACE|STRNUM_NOEXP, STRNUM_NOSIGN|STRNUM_NOSPACE|STRNUM_NOEXP};
static void judge(const unsigned char* t, int n, int ft, int opt, const char* p)
{
	strview_t v = {p, n};
	float a = 3; double b = 3; long double c = 3, got;
	int rerr = r_float(t, n, opt, &F);
	int err = ft == 0 ? strnum_value(&a, &v, opt) : ft == 1 ? strnum_value(&b, &v, opt) : strnum_value(&c, &v, opt);
	got = ft == 0 ? (long double)a : ft == 1 ? (long double)b : c;
	vh->trans++;
	VH_NONTRIV(!rerr);
	if(rerr)
	{
		VH_CHECK(err == EINVAL, "%s of %s, %s: %s, expected EINVAL", ftype[ft], vh_q(t, n), opt_str(opt), err_name(err));
		VH_CHECK(got == 3 && v.data == p && v.size == n, "%s of %s, %s: EINVAL but source or destination modified", ftype[ft], vh_q(t, n), opt_str(opt));
		return;
	}
	const char* bad = r_fjudge(&F, ft, err, got, 8);
	VH_CHECK(!bad, "%s of %s, %s: %s (got %.21Lg, %s)", ftype[ft], vh_q(t, n), opt_str(opt), bad, got, err_name(err));
	if(err) VH_CHECK(got == 3 && v.data == p && v.size == n, "%s of %s, %s: ERANGE but source or destination modified", ftype[ft], vh_q(t, n), opt_str(opt));
	else VH_CHECK(v.size == n-F.used && (!v.size || v.data == p+F.used), "%s of %s, %s: %d characters left, expected %d", ftype[ft], vh_q(t, n), opt_str(opt), v.size, n-F.used);
}
static void text(const unsigned char* t, int n, int nopt, int fts)
{
	if(!vh_case()) return;
	VH_DESC("%s", vh_q(t, n));
	const char* p = vh_slot_set(&nslot, t, n, n&7);
	for(int o=0; o<nopt; o++)
	{
		if(fts == 3) { judge(t, n, 0, fopts[o], p); judge(t, n, 1, fopts[o], p); judge(t, n, 2, fopts[o], p); }
		else judge(t, n, (n+o)%3, fopts[o], p);
	}
}
static void texts(const char* fmt, ...) __attribute__((format(printf,1,2)));
static void texts(const char* fmt, ...)
{
	static unsigned char b[8000];
	va_list va;
	va_start(va, fmt);
	int n = vsnprintf((char*)b, sizeof(b), fmt, va);
	va_end(va);
	text(b, n, 8, 3);
}
int main(int argc, char** argv)
{
	vh_init(argc, argv);
	vh_slot_init(&nslot, 9000);
	static const unsigned char A[] = {'.', '0', '7', 'e', '-', '+', ' ', 'E', 'i', 'f'};
	unsigned char t[200];
	int i, j, k, n, na = 8, mx = vh_thorough ? 8 : 6;
	vh_section("every short text");
	if(vh_slice()) text(A, 0, 8, 3);
	for(i=0; i<10; i++) for(j=-1; j<10; j++)
	{
		if(!vh_slice()) continue;
		t[0] = A[i];
		if(j < 0) { text(t, 1, 8, 3); continue; }
		t[1] = A[j];
		for(n=0; n<=mx-2; n++)
		{
			int b = n <= 3 ? 10 : n <= 4 ? na : 7;
			for(long x=0; x<vh_pow(b, n); x++) { vh_text(t+2, x, n, A, b); text(t, n+2, n <= 2 ? 8 : 1, n <= 3 ? 3 : 1); }
		}
	}
	vh_section("infinity and nan in every case, cut and altered");
	{
		static const char* w[] = {"infinity", "inf", "nan"};
		static const char* pre[] = {"", "-", "+", " ", "  -", "--", "- ", "0", "."};
		static const char* suf[] = {"", "i", "inity", "init", " ", "e5", "5", "(1)", ".", "\xff"};
		for(k=0; k<3; k++) for(i=0; i<9; i++)
		{
			if(!vh_slice()) continue;
			int L = (int)strlen(w[k]);
			for(j=0; j<10; j++) for(int cs=0; cs<(1<<L); cs++) for(int cut=0; cut<=L; cut++)
			{
				if(cut < L && cs >= 1<<cut) continue;
				n = sprintf((char*)t, "%s", pre[i]);
				for(int q=0; q<cut; q++) t[n++] = cs>>q&1 ? w[k][q]-32 : w[k][q];
				n += sprintf((char*)t+n, "%s", suf[j]);
				text(t, n, i < 5 && j < 3 ? 8 : 1, 3);
			}
			for(int at=0; at<L; at++) for(int c=0; c<256; c++)
			{
				n = sprintf((char*)t, "%s%s", pre[i], w[k]);
				t[strlen(pre[i])+at] = c;
				text(t, n, 1, 3);
			}
		}
	}
	vh_section("every byte in every place of a floating point number");
	{
		static const char* base[] = {"1.5e3", "-.25E-2", " +12.e+1", "3", ".5", "1e", "1e+", "0.", "inf", "1e5.5", "1.2.3"};
		for(k=0; k<11; k++)
		{
			if(!vh_slice()) continue;
			n = (int)strlen(base[k]);
			for(int at=0; at<=n; at++) for(int c=0; c<256; c++)
			{
				memcpy(t, base[k], n); t[at] = c; text(t, at == n ? n+1 : n, 8, 3);
				memcpy(t, base[k], at); t[at] = c; memcpy(t+at+1, base[k]+at, n-at); text(t, n+1, 8, 3);
			}
		}
	}
	vh_section("every two bytes before, within and after a number");
	for(int x=0; x<256; x++)
	{
		static const char* pre[] = {"", "1", "1.5", "1e5", "nan", "inf", "infinity", "0", "1", "2e", "."};
		static const char* suf[] = {"1.5", "", "", "", "", "", "", "1", "000", "3", "5"};
		if(!vh_slice()) continue;
		for(int y=0; y<256; y++) for(int q=0; q<11; q++)
		{
			n = (int)strlen(pre[q]); memcpy(t, pre[q], n);
			t[n++] = x; t[n++] = y;
			memcpy(t+n, suf[q], strlen(suf[q])); n += (int)strlen(suf[q]);
			text(t, n, 1, (x + y + q) % 3 ? 1 : 3);
		}
	}
	vh_section("exponents around and beyond every limit");
	{
		static const char* m[] = {"1", "0", "0.0", "-7.5", "0.0001", "123456789", "9.99999", ".5", "00", "-0"};
		static const char* e[] = {"38", "39", "37", "45", "46", "44", "307", "308", "309", "323", "324", "325", "4931", "4932", "4933", "4950", "4951", "4952", "99999", "2147483646", "2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "4294967297",
			"9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617", "99999999999999999999999999", "00000000000000000000000000000001", "0000000000000000000000000000", "0", "1", "5000", "100000000000000000000000000000000000005"};
		for(i=0; i<10; i++)
		{
			if(!vh_slice()) continue;
			for(j=0; j<38; j++) for(k=0; k<3; k++) for(int z=0; z<4; z++)
			{
				static const char* tail[] = {"", "x", "e1", "."};
				texts("%s%c%s%s%s", m[i], k&1 ? 'E' : 'e', k == 0 ? "" : k == 1 ? "-" : "+", e[j], tail[z]);
			}
		}
	}
	vh_section("overflow and underflow through the number of digits");
	{
		static const int lens[] = {1, 30, 37, 38, 39, 40, 45, 46, 47, 60, 307, 308, 309, 310, 323, 324, 325, 340, 1000, 4931, 4932, 4933, 4934, 4951, 4952, 4960, 5500};
		static unsigned char L[12000];
		for(i=0; i<27; i++)
		{
			if(!vh_slice()) continue;
			for(int d=1; d<10; d++) for(int z=0; z<4; z++)
			{
				n = 0;
				if(z & 1) L[n++] = '-';
				if(z < 2) { L[n++] = '0'+d; memset(L+n, '0', lens[i]); n += lens[i]; }
				else { L[n++] = '.'; memset(L+n, '0', lens[i]); n += lens[i]; L[n++] = '0'+d; }
				text(L, n, 1, 3);
				for(int q=-40; q<=40; q+=4) { int x = n + sprintf((char*)L+n, "e%d", (z < 2 ? -lens[i] : lens[i]) + q*(d+1)); text(L, x, 1, 3); }
				memset(L + (z&1) + (z >= 2), '0'+d, lens[i]);
				text(L, n, 1, 3);
			}
		}
	}
	{
		TRIPLE_EACH(b)
		{
			VH_DESC("%s", vh_q(b, 3));
			judge(b, 3, (b[0]+b[1]+b[2]) % 3, fopts[(b[0]+b[2]) & 7], (char*)b);
			judge(b, 3, (b[0]+b[1]+b[2]+1) % 3, 0, (char*)b);
		}
		free(b);
	}
	return vh_end();
}
