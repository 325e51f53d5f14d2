/*
	C22 what a conversion consumes. State: a text of several numbers and a position in it. Transition: one conversion (type,
	options) at that position. All the states reachable from position 0 are visited, each transition is judged for the
	remaining source, the destination, and the agreement of strnum_value, strnum_consume_x, NULL destination and strnum_x.
*/
#include "numcall.h"
static const int opts[] = {0, STRNUM_NOSPACE, STRNUM_BASE_HEX, STRNUM_BASE_BIN|STRNUM_NOSIGN, STRNUM_NOBX|STRNUM_NOEXP, STRNUM_NOSIGN|STRNUM_NOSPACE|STRNUM_NOBX|STRNUM_NOEXP};
static rfloat_t F;
#define SRC_IS(v, off) ((v).size == n-(off) && ((v).size == 0 || (v).data == p+(off)))
//	one transition with an integer type; returns characters consumed or -1
static int step_int(const char* p, int n, const char* t, int type, int opt, bool* judged)
{
	i128 want = 0, got = 0;
	int used = -1, err;
	bool same;
	int rerr = r_int((const unsigned char*)t, n, type, opt, &want, &used);
	const char* nm = itype[type].name;
	if(rerr) used = -1;
	if(type < NIT)
		for(int k=0; k<3; k++)
		{
			strview_t v = {p, n};
			same = true; got = want;
			err = k == 2 ? call_int_nodst(type, &v, opt) : call_int(type, &v, opt, k, &got, &same);
			vh->trans++; vh->traces++;
			if(rerr)
			{
				VH_CHECK(err == EINVAL || err == ERANGE, "%s of %s, %s: %s, expected an error", nm, vh_q(t, n), opt_str(opt), err_name(err));
				VH_CHECK(v.data == p && v.size == n, "%s of %s, %s: %s, but the source was modified", nm, vh_q(t, n), opt_str(opt), err_name(err));
				VH_CHECK(same, "%s of %s, %s: %s, but the destination was modified", nm, vh_q(t, n), opt_str(opt), err_name(err));
			}
			else
			{
				VH_CHECK(!err, "%s of %s, %s%s: %s, expected success", nm, vh_q(t, n), opt_str(opt), k == 2 ? " to NULL" : "", err_name(err));
				VH_CHECK(SRC_IS(v, used), "%s of %s, %s%s: %s is left, expected %s", nm, vh_q(t, n), opt_str(opt), k == 2 ? " to NULL" : "", vh_q(v.data, v.size), vh_q(t+used, n-used));
				VH_CHECK(got == want, "%s of %s, %s: value %s, expected %s", nm, vh_q(t, n), opt_str(opt), i128_str(got), i128_str(want));
			}
		}
	static const int df[] = {0, 1, 77, -1};
	for(int k=0; k<4; k++)
	{
		strview_t v = {p, n};
		i128 d = itype[type].lo < 0 || df[k] >= 0 ? df[k] : itype[type].hi;
		got = call_conv(type, v, d, opt);
		vh->trans++; vh->traces++;
		VH_CHECK(got == (rerr ? d : want), "strnum_%s of %s, default %s, %s: returned %s, expected %s", nm, vh_q(t, n), i128_str(d), opt_str(opt), i128_str(got), i128_str(rerr ? d : want));
	}
	*judged = true;
	return used;
}
static int step_flt(const char* p, int n, const char* t, int opt)
{
	int rerr = r_float((const unsigned char*)t, n, opt, &F), used = -1;
	__float128 x = 0;
	if(!rerr && !F.special) x = F.exp_huge ? 0 : strtof128(F.clean, NULL);
	for(int ft=0; ft<3; ft++)
	{
		float a = 3; double b = 3; long double c = 3, got;
		bool want_err = rerr || F.exp_huge || (!F.special && x > r_fmax(ft));
		if(!rerr && !F.special && !F.exp_huge && x > r_fmax(ft)*0.9999 && x < r_fmax(ft)*1.0001) continue;
		if(!want_err) used = F.used;
		for(int k=0; k<3; k++)
		{
			strview_t v = {p, n};
			int err;
			a = 3; b = 3; c = 3;
			if(k == 0) err = ft == 0 ? strnum_consume_float(&a, &v, opt) : ft == 1 ? strnum_consume_double(&b, &v, opt) : strnum_consume_ldouble(&c, &v, opt);
			else if(k == 1) err = ft == 0 ? strnum_value(&a, &v, opt) : ft == 1 ? strnum_value(&b, &v, opt) : strnum_value(&c, &v, opt);
			else err = ft == 0 ? strnum_consume_float(NULL, &v, opt) : ft == 1 ? strnum_consume_double(NULL, &v, opt) : strnum_consume_ldouble(NULL, &v, opt);
			got = ft == 0 ? (long double)a : ft == 1 ? (long double)b : c;
			vh->trans++; vh->traces++;
			if(want_err)
			{
				VH_CHECK(err == EINVAL || err == ERANGE, "%s of %s, %s: %s, expected an error", ftype[ft], vh_q(t, n), opt_str(opt), err_name(err));
				VH_CHECK(v.data == p && v.size == n, "%s of %s, %s: %s, but the source was modified", ftype[ft], vh_q(t, n), opt_str(opt), err_name(err));
				VH_CHECK(got == 3, "%s of %s, %s: %s, but the destination was modified", ftype[ft], vh_q(t, n), opt_str(opt), err_name(err));
			}
			else
			{
				VH_CHECK(!err, "%s of %s, %s%s: %s, expected success", ftype[ft], vh_q(t, n), opt_str(opt), k == 2 ? " to NULL" : "", err_name(err));
				VH_CHECK(SRC_IS(v, F.used), "%s of %s, %s%s: %s is left, expected %s", ftype[ft], vh_q(t, n), opt_str(opt), k == 2 ? " to NULL" : "", vh_q(v.data, v.size), vh_q(t+F.used, n-F.used));
				if(k < 2) { const char* bad = r_fjudge(&F, ft, err, got, 8); VH_CHECK(!bad, "%s of %s, %s: %s (got %Lg)", ftype[ft], vh_q(t, n), opt_str(opt), bad, got); }
			}
		}
		strview_t v = {p, n};
		got = ft == 0 ? (long double)strnum_float(v, 77, opt) : ft == 1 ? (long double)strnum_double(v, 77, opt) : strnum_ldouble(v, 77, opt);
		vh->trans++; vh->traces++;
		if(want_err) VH_CHECK(got == 77, "strnum_%s of %s, %s: returned %Lg, not the default", ftype[ft], vh_q(t, n), opt_str(opt), got);
		else { const char* bad = r_fjudge(&F, ft, 0, got, 8); VH_CHECK(!bad, "strnum_%s of %s, %s: %s (got %Lg)", ftype[ft], vh_q(t, n), opt_str(opt), bad, got); }
	}
	return used;
}
static void explore(const char* t, int n)
{
	static bool seen[400];
	static short q[400], dep[400];
	int h = 0, k = 0;
	const char* p0 = vh_slot_set(&nslot, t, n, n&7);
	memset(seen, 0, n+1);
	seen[0] = true; q[k] = 0; dep[k++] = 0;
	while(h < k)
	{
		int at = q[h], d = dep[h];
		h++;
		vh->states++;
		if((unsigned long)d > vh->maxdepth) vh->maxdepth = d;
		for(int o=0; o<6; o++) for(int type=0; type<=NFT; type++)
		{
			bool judged = false;
			int used;
			if(type == NFT) used = opts[o] & 7 & ~STRNUM_NOBX ? -1 : step_flt(p0+at, n-at, t+at, opts[o]);
			else used = step_int(p0+at, n-at, t+at, type, opts[o], &judged);
			if(used > 0 && !seen[at+used]) { seen[at+used] = true; q[k] = at+used; dep[k++] = d+1; }
		}
	}
	VH_NONTRIV(k > 1);
}
int main(int argc, char** argv)
{
	vh_init(argc, argv);
	vh_slot_init(&nslot, 140000);
	static const char* tok[] = {"1", "12", "-3", "+4", " ", "0x1F", "0b101", "abc", ".5", "1.25", "e3", "E-2", "255", "256", "-128", "-129", "65536", "4294967296", "18446744073709551615", "18446744073709551616", "-9223372036854775808",
		"9223372036854775808", "inf", "Infinity", "nan", "1e40", "1e400", "1e5000", "1e-5000", "0", "00", ",", "-", "0x", "\t", "1e99999999999", "007", "-0", "99999999999999999999999", "f", "b2", "x", "+-1", "1e+", "1e-", "1e", "1.", "e", "."};
	int nt = sizeof(tok)/sizeof(*tok), a, b, c, d;
	int n;
	char t[400];
	vh_section("every sequence of up to 3 tokens");
	for(a=0; a<nt; a++) for(b=-1; b<nt; b++)
	{
		if(!vh_slice()) continue;
		for(c=-1; c<(b < 0 ? 0 : nt); c++)
		{
			int sep = c < 0 && !vh_thorough ? 2 : vh_thorough ? 3 : 1;
			for(d=0; d<sep; d++)
			{
				static const char* s[] = {"", " ", ","};
				if(!vh_case()) continue;
				n = sprintf(t, "%s%s%s%s%s", tok[a], b < 0 ? "" : s[d], b < 0 ? "" : tok[b], c < 0 ? "" : s[d], c < 0 ? "" : tok[c]);
				VH_DESC("text %s", vh_q(t, n));
				explore(t, n);
			}
		}
	}
	vh_section("longer texts");
	for(a=0; a<nt; a++)
	{
		if(!vh_slice()) continue;
		for(b=0; b<nt; b++)
		{
			if(!vh_case()) continue;
			n = 0;
			for(c=0; c<(vh_thorough?12:8) && n<300; c++) n += sprintf(t+n, "%s%s", tok[(a*(c+1)+b*c*c)%nt], (c+a)%3 ? " " : "");
			VH_DESC("text %s", vh_q(t, n));
			explore(t, n);
		}
	}
	vh_section("the limits of every integer type");
	static const char* pre[] = {"", "0x", "0b", "000", "0x000"};
	static const char* suf[] = {"", " ", ";1"};
	for(a=0; a<NFT; a++) for(b=0; b<2; b++)
	{
		if(!vh_slice()) continue;
		for(c=vh_thorough?-40:-3; c<=(vh_thorough?40:3); c++) for(d=0; d<5; d++) for(int sg=0; sg<3; sg++) for(int e=0; e<3; e++)
		{
			if(!vh_case()) continue;
			char dig[140];
			int base = d == 0 || d == 3 ? 10 : d == 2 ? 2 : 16, m = 0;
			i128 v = (b ? itype[a].hi : itype[a].lo) + c;
			unsigned __int128 u = v < 0 ? -(unsigned __int128)v : (unsigned __int128)v;
			do { dig[m++] = "0123456789abcdef"[u%base]; u /= base; } while(u);
			n = sprintf(t, "%s%s", sg == 2 ? "+" : (v < 0) != (sg == 1) ? "-" : "", pre[d]);
			while(m) t[n++] = dig[--m];
			n += sprintf(t+n, "%s", suf[e]);
			VH_DESC("text %s", vh_q(t, n));
			explore(t, n);
		}
	}
	vh_section("every short text");
	{
		static const unsigned char A[] = {'1', '0', ' ', '-', '.', 'e', 'x', 'b', '+'};
		int N = vh_thorough ? 6 : 5;
		for(n=0; n<=N; n++) for(long k=0; k<vh_pow(9, n); k+=81)
		{
			if(!vh_slice()) continue;
			for(long j=k; j<k+81 && j<vh_pow(9, n); j++)
			{
				if(!vh_case()) continue;
				vh_text((unsigned char*)t, j, n, A, 9);
				VH_DESC("text %s", vh_q(t, n));
				explore(t, n);
			}
		}
	}
	vh_section("counts of spaces and zeros beyond 8 and 16 bits");
	{
		static const int C[] = {127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000, 131073};
		static const char* H[] = {"", "0x", "0b", "-", "-0x", "1e", "1e-", "."};
		static const char* S[] = {"", "1", "-12", "0x1F", "0b10", "1.5e1", "x", "inf"};
		static char big[140000];
		for(a=0; a<21; a++) for(b=0; b<2; b++)
		{
			if(!vh_slice()) continue;
			for(c=0; c<8; c++) for(d=0; d<8; d++)
			{
				if(!vh_case()) continue;
				n = sprintf(big, "%s", H[c]);
				memset(big+n, b ? '0' : ' ', C[a]); n += C[a];
				n += sprintf(big+n, "%s", S[d]);
				const char* p0 = vh_slot_set(&nslot, big, n, n&7);
				VH_DESC("%s, %d times '%c', then %s", H[c], C[a], b ? '0' : ' ', S[d]);
				VH_NONTRIV(1);
				for(int o=0; o<6; o++) for(int type=0; type<=NFT; type += type < NFT-1 && a > 10 && !vh_thorough ? 3 : 1)
				{
					bool judged;
					if(type == NFT) { if(!(opts[o] & 7 & ~STRNUM_NOBX)) step_flt(p0, n, big, opts[o]); }
					else step_int(p0, n, big, type, opts[o], &judged);
				}
			}
		}
	}
	return vh_end();
}
