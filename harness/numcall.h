//	numcall.h - one integer conversion through every public way of asking for it, judged against the reference
#ifndef NUMCALL_H
#define NUMCALL_H
#include "refnum.h"
static vh_slot_t nslot;
//	call strnum_consume of the type number, value as 128 bits. *same = destination left unmodified
static int call_int(int type, strview_t* src, int opt, bool generic, i128* val, bool* same)
{
	int err = -1;
	switch(type)
	{
		#define C(n, nm, ty, sg, lo, hi) case n: { ty d = (ty)0x55, was = d; err = generic ? strnum_value(&d, src, opt) : strnum_consume_##nm(&d, src, opt); *val = d; *same = d == was; break; }
		INT_TYPES(C)
		#undef C
	}
	return err;
}
static int call_int_nodst(int type, strview_t* src, int opt)
{
	switch(type)
	{
		#define C(n, nm, ty, sg, lo, hi) case n: return strnum_consume_##nm(NULL, src, opt);
		INT_TYPES(C)
		#undef C
	}
	return -1;
}
static i128 call_conv(int type, strview_t src, i128 dfault, int opt)
{
	switch(type)
	{
		#define C(n, nm, ty, sg, lo, hi) case n: return strnum_##nm(src, (ty)dfault, opt);
		INT_TYPES(C) FIX_TYPES(C)
		#undef C
	}
	return 0;
}
static const char* err_name(int e) { return e == 0 ? "success" : e == EINVAL ? "EINVAL" : e == ERANGE ? "ERANGE" : "an unknown error"; }
static const char* i128_str(i128 v)
{
	static char b[4][48]; static int k;
	char* p = b[k = (k+1)%4] + 47;
	u128 u = v < 0 ? -(u128)v : (u128)v;
	*p = 0;
	do *--p = '0' + (int)(u%10); while(u /= 10);
	if(v < 0) *--p = '-';
	return p;
}
static const char* opt_str(int o)
{
	static char b[4][60]; static int k;
	char* p = b[k = (k+1)%4];
	snprintf(p, 60, "options%s%s%s%s%s%s", o&1?" BIN":"", o&2?" HEX":"", o&4?" NOBX":"", o&8?" NOSIGN":"", o&16?" NOSPACE":"", o&32?" NOEXP":o?"":" none");
	return p;
}
enum { J_VALUE=1, J_SRC=2, J_ERR=4 };
static void judge_int(const unsigned char* t, int n, const char* p, int type, int opt, unsigned j, bool generic)
{
	i128 want = 0, got = 0;
	int used = 0, err, rerr = r_int(t, n, type, opt, &want, &used);
	bool same;
	strview_t v = {p, n};
	err = call_int(type, &v, opt, generic, &got, &same);
	vh->trans++;
	VH_NONTRIV(!rerr);
	VH_CHECK(err == rerr, "%s of %s, %s: %s, expected %s", itype[type].name, vh_q(t, n), opt_str(opt), err_name(err), err_name(rerr));
	if(!err && (j & J_VALUE)) VH_CHECK(got == want, "%s of %s, %s: value %s, expected %s", itype[type].name, vh_q(t, n), opt_str(opt), i128_str(got), i128_str(want));
	if(j & J_SRC)
	{
		if(err) { VH_CHECK(v.data == p && v.size == n, "%s of %s, %s: source modified though the conversion failed", itype[type].name, vh_q(t, n), opt_str(opt)); VH_CHECK(same, "%s of %s, %s: destination modified though the conversion failed", itype[type].name, vh_q(t, n), opt_str(opt)); }
		else VH_CHECK(v.size == n-used && (v.size == 0 || v.data == p+used), "%s of %s, %s: %d characters left, expected %d", itype[type].name, vh_q(t, n), opt_str(opt), v.size, n-used);
	}
}
#endif
