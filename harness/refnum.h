//	refnum.h - reference meaning of the number conversions, written from the documentation. Independent of the code under test.
#ifndef REFNUM_H
#define REFNUM_H
#include "vh.h"
#include "strview.h"
#include "strnum.h"
#include <errno.h>
#include <float.h>
#include <math.h>
typedef __int128 i128;
typedef unsigned __int128 u128;

//	integer types: number, name, type, signed, minimum, maximum
#define INT_TYPES(X) \
	X(0, uchar, unsigned char, 0, 0, UCHAR_MAX) X(1, ushort, unsigned short, 0, 0, USHRT_MAX) X(2, uint, unsigned int, 0, 0, UINT_MAX) \
	X(3, ulong, unsigned long, 0, 0, ULONG_MAX) X(4, ullong, unsigned long long, 0, 0, ULLONG_MAX) \
	X(5, char, char, 1, CHAR_MIN, CHAR_MAX) X(6, short, short, 1, SHRT_MIN, SHRT_MAX) X(7, int, int, 1, INT_MIN, INT_MAX) \
	X(8, long, long, 1, LONG_MIN, LONG_MAX) X(9, llong, long long, 1, LLONG_MIN, LLONG_MAX)
#define NIT 10
#define FIX_TYPES(X) X(10, u8, uint8_t, 0, 0, UINT8_MAX) X(11, u16, uint16_t, 0, 0, UINT16_MAX) X(12, u32, uint32_t, 0, 0, UINT32_MAX) X(13, u64, uint64_t, 0, 0, UINT64_MAX) \
	X(14, i8, int8_t, 1, INT8_MIN, INT8_MAX) X(15, i16, int16_t, 1, INT16_MIN, INT16_MAX) X(16, i32, int32_t, 1, INT32_MIN, INT32_MAX) X(17, i64, int64_t, 1, INT64_MIN, INT64_MAX)
#define NFT 18
#define D(n, nm, ty, sg, lo, hi) {#nm, sg, lo, hi},
static const struct { const char* name; bool sg; i128 lo, hi; } itype[NFT] = { INT_TYPES(D) FIX_TYPES(D) };
#undef D
#define FLT_TYPES(X) X(0, float, float) X(1, double, double) X(2, ldouble, long double)
static const char* ftype[3] = {"float", "double", "long double"};

static inline int r_digit(int c, int base)
{
	int d = c >= '0' && c <= '9' ? c-'0' : c >= 'a' && c <= 'f' ? c-'a'+10 : c >= 'A' && c <= 'F' ? c-'A'+10 : 99;
	return d < base ? d : -1;
}
//	returns the error, on success *used characters are consumed
static inline int r_int(const unsigned char* t, int n, int type, int opt, i128* val, int* used)
{
	int p = 0, base = opt & STRNUM_BASE_BIN ? 2 : opt & STRNUM_BASE_HEX ? 16 : 10, d;
	bool neg = false, any = false, huge = false;
	u128 v = 0;
	if(!(opt & STRNUM_NOSPACE)) while(p < n && t[p] == ' ') p++;
	if(itype[type].sg && !(opt & STRNUM_NOSIGN) && p < n && (t[p] == '+' || t[p] == '-')) neg = t[p++] == '-';
	if(!(opt & STRNUM_NOBX) && p+1 < n && t[p] == '0')
	{
		if((t[p+1] == 'x' || t[p+1] == 'X') && !(opt & STRNUM_BASE_BIN)) { base = 16; p += 2; }
		else if((t[p+1] == 'b' || t[p+1] == 'B') && !(opt & STRNUM_BASE_HEX)) { base = 2; p += 2; }
	}
	for(; p < n && (d = r_digit(t[p], base)) >= 0; p++)
	{
		any = true;
		v = v*base + d;
		if(v > (u128)1 << 100) huge = true, v = (u128)1 << 90;
	}
	if(!any) return EINVAL;
	*val = neg ? -(i128)v : (i128)v;
	if(huge || *val < itype[type].lo || *val > itype[type].hi) return ERANGE;
	*used = p;
	return 0;
}
typedef struct { int digits_at, len; bool neg; int special; long exp; bool exp_huge; int used; char clean[300000]; } rfloat_t;	// special: 1 inf 2 nan
static inline bool r_word(const unsigned char* t, int n, const char* w)
{
	int i, k = (int)strlen(w);
	if(n < k) return false;
	for(i=0; i<k; i++) if((t[i] | 0x20) != w[i] || !((t[i] >= 'a' && t[i] <= 'z') || (t[i] >= 'A' && t[i] <= 'Z'))) return false;
	return true;
}
//	scan a floating point number. clean = text of the number for the C library (no spaces, exponent limited)
static inline int r_float(const unsigned char* t, int n, int opt, rfloat_t* f)
{
	int p = 0, k = 0, nd = 0;
	memset(f, 0, offsetof(rfloat_t, clean));
	if(!(opt & STRNUM_NOSPACE)) while(p < n && t[p] == ' ') p++;
	if(!(opt & STRNUM_NOSIGN) && p < n && (t[p] == '+' || t[p] == '-')) f->neg = t[p++] == '-';
	if(r_word(t+p, n-p, "infinity")) { f->special = 1; f->used = p+8; return 0; }
	if(r_word(t+p, n-p, "inf")) { f->special = 1; f->used = p+3; return 0; }
	if(r_word(t+p, n-p, "nan")) { f->special = 2; f->used = p+3; return 0; }
	while(p < n && t[p] >= '0' && t[p] <= '9') { f->clean[k++] = t[p++]; nd++; }
	if(p < n && t[p] == '.')
	{
		f->clean[k++] = t[p++];
		while(p < n && t[p] >= '0' && t[p] <= '9') { f->clean[k++] = t[p++]; nd++; }
	}
	if(!nd) return EINVAL;
	if(!(opt & STRNUM_NOEXP) && p < n && (t[p] == 'e' || t[p] == 'E'))
	{
		int q = p+1, from;
		bool neg = false;
		if(q < n && (t[q] == '+' || t[q] == '-')) neg = t[q++] == '-';
		from = q;
		for(; q < n && t[q] >= '0' && t[q] <= '9'; q++)
			if(f->exp < 100000000000L) f->exp = f->exp*10 + t[q]-'0';
		if(q > from)
		{
			if(neg) f->exp = -f->exp;
			f->exp_huge = f->exp > INT_MAX || f->exp < INT_MIN;
			p = q;
		}
	}
	k += sprintf(f->clean+k, "e%ld", f->exp);
	f->used = p;
	return 0;
}
//	exact value to 113 bits (glibc)
__float128 strtof128(const char*, char**);
static const int fbits[3] = {FLT_MANT_DIG, DBL_MANT_DIG, LDBL_MANT_DIG};
static const int fmine[3] = {FLT_MIN_EXP, DBL_MIN_EXP, LDBL_MIN_EXP};
static inline __float128 r_fmax(int ft) { return ft == 0 ? (__float128)FLT_MAX : ft == 1 ? (__float128)DBL_MAX : (__float128)LDBL_MAX; }
//	one unit in the last place of the type at the value x (x finite, positive)
static inline __float128 r_ulp(__float128 x, int ft)
{
	union { __float128 f; struct { uint64_t lo, hi; } u; } v = { .f = x };
	int e = (int)(v.u.hi >> 48 & 0x7FFF) - 16383;		// x = 1.m * 2^e
	int u = e - (fbits[ft] - 1), lo = fmine[ft] - fbits[ft];
	if(u < lo) u = lo;
	if(u + 16383 < 1)			// below the normal range of the reference type (smallest long doubles)
	{
		v.u.lo = 0; v.u.hi = 0;
		int s = u + 16383 + 111;	// 2^u = 2^s * 2^-16494
		if(s >= 64) v.u.hi = 1ull << (s-64); else v.u.lo = 1ull << (s < 0 ? 0 : s);
		return v.f;
	}
	v.u.lo = 0; v.u.hi = (uint64_t)(u + 16383) << 48;
	return v.f;
}
static double worst_ulp[3];
//	judge value got (as long double) with return code err against the text scanned. NULL if right, or what is wrong
static const char* r_fjudge(const rfloat_t* f, int ft, int err, long double got, double tol) __attribute__((unused));
static const char* r_fjudge(const rfloat_t* f, int ft, int err, long double got, double tol)
{
	__float128 x, d, u, mx = r_fmax(ft);
	if(f->special)
	{
		if(err) return "inf or nan refused";
		if(f->special == 2) return got != got ? NULL : "nan did not give NaN";
		return got == (f->neg ? -(long double)INFINITY : (long double)INFINITY) ? NULL : "inf did not give the right infinity";
	}
	if(f->exp_huge) return err == ERANGE ? NULL : "exponent beyond int is not ERANGE";
	x = strtof128(f->clean, NULL);
	if(x > mx * 2) return err == ERANGE ? NULL : "overflow is not ERANGE";
	u = r_ulp(x, ft);
	if(x > mx + tol*u) return err == ERANGE ? NULL : "overflow is not ERANGE";
	if(err)
		return err == ERANGE && x > mx - tol*u ? NULL : err == ERANGE ? "representable value gave ERANGE" : "valid number gave EINVAL";
	if(got != got) return "finite number gave NaN";
	if(f->neg ? got > 0 : got < 0) return "wrong sign";
	if(got == INFINITY || got == -INFINITY) return "finite number gave infinity";
	if((f->neg && x > u) && !signbit(got)) return "wrong sign";
	d = (f->neg ? -(__float128)got : (__float128)got) - x;
	if(d < 0) d = -d;
	if(d > 0)
	{
		double e = (double)(d/u);
		if(e > worst_ulp[ft]) worst_ulp[ft] = e;
		if(d > tol*u) return "value is inaccurate";
	}
	return NULL;
}
#endif
