//	C23 syntax admitted by each combination of options
#include "numcall.h"
static const unsigned char A[] = {' ', '-', '+', '0', '1', '2', 'b', 'X', 'f', '\t', 0xB1, '.', 'e'};
static rfloat_t F;
static void flt(const unsigned char* t, int n, const char* p, int opt)
{
	int rerr = r_float(t, n, opt, &F);
	for(int ft=0; ft<3; ft++)
	{
		strview_t v = {p, n};
		float a = 3; double b = 3; long double c = 3, got;
		int err = ft == 0 ? strnum_consume_float(&a, &v, opt) : ft == 1 ? strnum_consume_double(&b, &v, opt) : strnum_consume_ldouble(&c, &v, opt);
		got = ft == 0 ? (long double)a : ft == 1 ? (long double)b : c;
		vh->trans++;
		if(rerr) VH_CHECK(err == EINVAL, "%s of %s, %s: %s, expected EINVAL", ftype[ft], vh_q(t, n), opt_str(opt), err_name(err));
		else
		{
			const char* bad = r_fjudge(&F, ft, err, got, 8);
			VH_CHECK(!bad, "%s of %s, %s: %s (got %Lg %s)", ftype[ft], vh_q(t, n), opt_str(opt), bad, got, err_name(err));
			if(!err) VH_CHECK(v.size == n - F.used, "%s of %s, %s: %d characters left, expected %d", ftype[ft], vh_q(t, n), opt_str(opt), v.size, n - F.used);
		}
	}
}
//	all options, the types given by a mask
static void text(const unsigned char* t, int n, unsigned mask, bool f)
{
	const char* p = vh_slot_set(&nslot, t, n, n&7);
	for(int opt=0; opt<64; opt++)
	{
		if((opt & 3) == 3) continue;		// both bases at once is not documented
		if(!vh_case()) continue;
		VH_DESC("%s %s", vh_q(t, n), opt_str(opt));
		if(!(opt & 32) || n < 4)
			for(int ty=0; ty<NIT; ty++)
				if(mask >> ty & 1) judge_int(t, n, p, ty, opt, J_VALUE|J_ERR|J_SRC, ty & 1);
		if(f && !(opt & 7)) flt(t, n, p, opt);
	}
}
int main(int argc, char** argv)
{
	vh_init(argc, argv);
	vh_slot_init(&nslot, 3000);
	unsigned char t[64];
	int n, na = sizeof(A), mx = vh_thorough ? 7 : 5;
	vh_section("every short text");
	if(vh_slice()) text(A, 0, 0x3FF, true);
	for(int a=0; a<na; a++) for(int b=-1; b<na; b++)
	{
		if(!vh_slice()) continue;
		t[0] = A[a];
		if(b < 0) { text(t, 1, 0x3FF, true); continue; }
		t[1] = A[b];
		//	the longer the text, the smaller the part of the alphabet which is varied
		for(n=0; n<=mx-2; n++) for(long x=0; x<vh_pow(n >= 4 ? 9 : na, n); x++)
		{
			vh_text(t+2, x, n, A, n >= 4 ? 9 : na);
			text(t, n+2, n < 2 ? 0x3FF : n < 3 ? 0x84 : 0x84, n < 3);
		}
	}
	vh_section("every byte in every place of a number");
	{
		static const char* base[] = {"12", "0", "-7", "+5", "0x1F", "0X0a", "0b10", "0B01", " 3", "  -0x7", "0x", "0b", "+0b1", "--1", "1e5", "-.5E-3", " 4.25", "inf", "-nan", "0b2", "0xg", "00b1", "00x1", "1 2"};
		for(int q=0; q<24; q++)
		{
			if(!vh_slice()) continue;
			n = (int)strlen(base[q]);
			for(int at=0; at<=n; at++) for(int c=0; c<256; c++)
			{
				memcpy(t, base[q], n); t[at] = c; text(t, at == n ? n+1 : n, 0x3FF, true);
				if(at < n) { memcpy(t, base[q], at); t[at] = c; memcpy(t+at+1, base[q]+at, n-at); text(t, n+1, 0x3FF, true); }
			}
		}
	}
	vh_section("every two bytes before, within and after a number");
	for(int x=0; x<256; x++)
	{
		static const char* pre[] = {"", "5", "0", "1", "-", "0x"};
		static const char* suf[] = {"5", "", "1", "000", "7", "1"};
		static const int opts[] = {0, STRNUM_BASE_BIN, STRNUM_BASE_HEX, STRNUM_NOBX, STRNUM_NOSIGN, STRNUM_NOSPACE, STRNUM_BASE_HEX|STRNUM_NOSIGN|STRNUM_NOSPACE|STRNUM_NOBX, STRNUM_NOEXP};
		if(!vh_slice()) continue;
		for(int y=0; y<256; y++) for(int q=0; q<6; q++)
		{
			n = (int)strlen(pre[q]); memcpy(t, pre[q], n);
			t[n++] = x; t[n++] = y;
			memcpy(t+n, suf[q], strlen(suf[q])); n += (int)strlen(suf[q]);
			const char* p = vh_slot_set(&nslot, t, n, n&7);
			for(int o=0; o<8; o++)
			{
				if(!vh_case()) continue;
				VH_DESC("%s %s", vh_q(t, n), opt_str(opts[o]));
				judge_int(t, n, p, (x+y+o)%NIT, opts[o], J_VALUE|J_ERR|J_SRC, y & 1);
				judge_int(t, n, p, 7, opts[o], J_VALUE|J_ERR|J_SRC, x & 1);
				if((o == 0 || o == 7) && q < 4) flt(t, n, p, opts[o]);
			}
		}
	}
	vh_section("long runs of spaces, zeros and digits");
	for(int k=0; k<=300; k++)
	{
		static unsigned char L[700];
		if(!vh_slice()) continue;
		for(int q=0; q<6; q++)
		{
			memset(L, ' ', k);
			n = k;
			const char* tail = q == 0 ? "-1" : q == 1 ? "0x1f" : q == 2 ? "0b1" : q == 3 ? "" : q == 4 ? "+" : "\t1";
			memcpy(L+n, tail, strlen(tail)); n += (int)strlen(tail);
			text(L, n, 0x3FF, true);
			memset(L, '0', k); memcpy(L+k, tail, strlen(tail));
			text(L, k+(int)strlen(tail), 0x3FF, true);
		}
	}
	vh_section("numbers of every length, after every sign and prefix");
	{
		static const char* sign[] = {"", "-", "+", " ", "\t-", " + ", "--"};
		static const char* pre[] = {"", "0x", "0X", "0b", "0B", "0", "00x", "0x0", "0b0", "0b0x", "x", "b"};
		static const char* dig[] = {"1", "0", "f", "9", "10", "9F", "12", "e", "01", "b1"};
		for(int sg=0; sg<7; sg++) for(int pr=0; pr<12; pr++)
		{
			if(!vh_slice()) continue;
			for(int d=0; d<10; d++) for(int k=0; k<=(vh_thorough?150:72); k++) for(int e=0; e<(k%4?1:3); e++)
			{
				static unsigned char L[300];
				n = (int)strlen(sign[sg]); memcpy(L, sign[sg], n);
				memcpy(L+n, pre[pr], strlen(pre[pr])); n += (int)strlen(pre[pr]);
				for(int i=0; i<k; i++) L[n++] = dig[d][i%strlen(dig[d])];
				if(e) L[n++] = e == 1 ? ' ' : 'g';
				text(L, n, 0x3FF, false);
			}
		}
	}
	return vh_end();
}
