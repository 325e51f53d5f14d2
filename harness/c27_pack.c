//	C27 packing and unpacking of integers
#include "bufmodel.h"
#include "triple.h"
#include "refview.h"
#include "strbuf_pack.h"
#include "strview_unpack.h"
#define PT(X) X(0, uint8_t) X(1, int8_t) X(2, uint16_t) X(3, int16_t) X(4, uint32_t) X(5, int32_t) X(6, uint64_t) X(7, int64_t)
static const int width[8] = {1,1,2,2,4,4,8,8};
static const char* tname[8] = {"uint8_t","int8_t","uint16_t","int16_t","uint32_t","int32_t","uint64_t","int64_t"};
//	When built with the byte order of another host (-U__BYTE_ORDER__ -D__BYTE_ORDER__=...) the branches of xendian.h for that
//	host are compiled, and must give the mirror image of each result. Code which does not depend on the macro gives none.
static bool mirror;
static void find_mirror(void) { uint16_t v = 0x1122; if(__BYTE_ORDER__ != __ORDER_LITTLE_ENDIAN__) { v = xendian_pack_BE(v); mirror = *(unsigned char*)&v == 0x22; } }
static void ref_bytes(unsigned char* d, int type, bool be, uint64_t v)
{
	int w = width[type];
	be ^= mirror;
	for(int i=0; i<w; i++) d[be ? w-1-i : i] = (unsigned char)(v >> 8*i);
}
static void pack(strbuf_t** b, int type, bool be, uint64_t v)
{
	switch(type)
	{
		#define C(n, ty) case n: { ty x[2] = {(ty)v, (ty)~v}; int i = 0; if(be) STRBUF_PACK_BE(b, x[i++]); else STRBUF_PACK_LE(b, x[i++]); VH_CHECK(i == 1, "STRBUF_PACK evaluated its argument %d times", i); break; }
		PT(C)
		#undef C
	}
}
static uint64_t unpack(strview_t* s, int type, bool be)
{
	switch(type)
	{
		#define C(n, ty) case n: { struct { ty guard0, x, guard1; } d; memset(&d, 0xCC, sizeof(d)); if(be) STRVIEW_UNPACK_BE(d.x, *s); else STRVIEW_UNPACK_LE(d.x, *s); VH_CHECK(d.guard0 == (ty)0xCCCCCCCCCCCCCCCCull && d.guard1 == (ty)0xCCCCCCCCCCCCCCCCull, "STRVIEW_UNPACK wrote beside its destination"); return (uint64_t)(int64_t)d.x; }
		PT(C)
		#undef C
	}
	return 0;
}
static uint64_t trunc_to(int type, uint64_t v)
{
	switch(type)
	{
		#define C(n, ty) case n: return (uint64_t)(int64_t)(ty)v;
		PT(C)
		#undef C
	}
	return 0;
}
static void xend(int type, uint64_t v)
{
	unsigned char le[8], be[8], hb[8];
	ref_bytes(le, type, false, v); ref_bytes(be, type, true, v);
	switch(type)
	{
		#define C(n, ty) case n: { ty x = (ty)v, y; \
			y = xendian_pack_LE(x); memcpy(hb, &y, sizeof(y)); VH_CHECK(!memcmp(hb, le, sizeof(y)), "xendian_pack_LE(" #ty " 0x%llx) has the bytes %s", (unsigned long long)v, vh_q(hb, sizeof(y))); \
			y = xendian_unpack_LE(y); VH_CHECK(y == x, "xendian_unpack_LE(xendian_pack_LE(" #ty " 0x%llx)) differs", (unsigned long long)v); \
			y = xendian_pack_BE(x); memcpy(hb, &y, sizeof(y)); VH_CHECK(!memcmp(hb, be, sizeof(y)), "xendian_pack_BE(" #ty " 0x%llx) has the bytes %s", (unsigned long long)v, vh_q(hb, sizeof(y))); \
			y = xendian_unpack_BE(y); VH_CHECK(y == x, "xendian_unpack_BE(xendian_pack_BE(" #ty " 0x%llx)) differs", (unsigned long long)v); \
			y = xendian_pack_BE(xendian_pack_BE(x)); VH_CHECK(y == x, "xendian_pack_BE twice is not the identity for " #ty " 0x%llx", (unsigned long long)v); \
			y = xendian_pack_LE(xendian_pack_LE(x)); VH_CHECK(y == x, "xendian_pack_LE twice is not the identity for " #ty " 0x%llx", (unsigned long long)v); \
			VH_CHECK(sizeof(xendian_pack_BE(x)) == sizeof(ty) && sizeof(xendian_pack_LE(x)) == sizeof(ty), "xendian_pack changes the type of " #ty); break; }
		PT(C)
		#undef C
	}
	vh->trans += 6;
}
static vh_slot_t uslot;
//	one value of one type in both orders
static void value(int type, uint64_t v)
{
	if(!vh_case()) return;
	v = trunc_to(type, v);
	VH_DESC("%s 0x%llx", tname[type], (unsigned long long)v);
	VH_NONTRIV(v != 0);
	xend(type, v);
	for(int be=0; be<2; be++)
	{
		unsigned char want[8];
		strbuf_t* b = STRBUF_FIXED_CAP(24);
		int w = width[type];
		ref_bytes(want, type, be, v);
		if(v & 1) strbuf_append_char(&b, 'x');
		int at = b->size;
		pack(&b, type, be, v);
		VH_CHECK(b->size == at+w && !memcmp(b->cstr+at, want, w), "%s 0x%llx packed %s is %s, expected %s", tname[type], (unsigned long long)v, be ? "BE" : "LE", vh_q(b->cstr+at, b->size-at), vh_q(want, w));
		char* p = vh_slot_set(&uslot, want, w, (int)(v>>1)&7);
		strview_t s = RV(p, w);
		uint64_t r = unpack(&s, type, be);
		VH_CHECK(r == v, "%s unpacked %s from %s is 0x%llx", tname[type], be ? "BE" : "LE", vh_q(want, w), (unsigned long long)r);
		VH_CHECK(s.size == 0, "%d bytes left after unpacking everything", s.size);
		vh->trans += 2;
	}
}
int main(int argc, char** argv)
{
	vh_init(argc, argv);
	bm_init(600, 600);
	vh_slot_init(&uslot, 3000);
	find_mirror();
	int type, i, j;
	vh_section("every 8 and 16 bit value");
	for(i=0; i<256; i++)
	{
		if(!vh_slice()) continue;
		value(0, i); value(1, i);
		for(j=0; j<256; j++) { value(2, i*256+j); value(3, i*256+j); }
	}
	vh_section("byte patterns of 32 and 64 bit values");
	{
		static const unsigned char P[] = {0x00, 0x80, 0xFF, 0x12, 0x7F, 0x01};
		for(i=0; i<6; i++) for(j=0; j<6; j++)
		{
			if(!vh_slice()) continue;
			for(type=4; type<6; type++) for(int k=0; k<36; k++) value(type, (uint64_t)P[i]<<24 | P[j]<<16 | P[k/6]<<8 | P[k%6]);
			int na = vh_thorough ? 6 : 3;
			if(i < na && j < na) for(type=6; type<8; type++) for(long x=0; x<vh_pow(na, 6); x++)
			{
				unsigned char t[6]; uint64_t v = (uint64_t)P[i]<<56 | (uint64_t)P[j]<<48;
				vh_text(t, x, 6, P, na);
				for(int k=0; k<6; k++) v |= (uint64_t)t[k] << 8*k;
				value(type, v);
			}
		}
		//	every byte of every place, every pair of places, against several backgrounds
		static const uint64_t bg[] = {0, ~0ull, 0x0123456789ABCDEFull, 0x8000000000000001ull};
		for(i=0; i<4; i++) for(type=4; type<8; type++)
		{
			if(!vh_slice()) continue;
			int w = width[type];
			for(int p=0; p<w; p++) for(int c=0; c<256; c++)
			{
				uint64_t v = (bg[i] & ~(0xFFull << 8*p)) | (uint64_t)c << 8*p;
				value(type, v);
				if(vh_thorough || c%17 == 0) for(int q=0; q<p; q++) for(int d=0; d<256; d+=5) value(type, (v & ~(0xFFull << 8*q)) | (uint64_t)d << 8*q);
			}
		}
		for(i=0; i<64; i++) { if(!vh_slice()) continue; for(j=-70; j<=70; j++) for(type=4; type<8; type++) { value(type, (1ull<<i)+j); value(type, ~((1ull<<i)+j)); } }
	}
	vh_section("every sequence of types and orders");
	{
		int depth = vh_thorough ? 5 : 4;
		for(int a=0; a<16; a++) for(int b0=0; b0<16; b0++)
		{
			if(!vh_slice()) continue;
			for(int n=1; n<=depth; n++) for(long x=0; x<vh_pow(16, n>2 ? n-2 : 0); x++)
			{
				if(n == 1 && b0) continue;
				if(!vh_case()) continue;
				int seq[8] = {a, b0}; long y = x;
				for(i=2; i<n; i++) { seq[i] = (int)(y%16); y /= 16; }
				unsigned char want[100]; int wn = 0, off[9];
				uint64_t v[8];
				arena_reset(x & 1);
				int kind = (int)((x + a + b0)%3);
				strbuf_t* b;
				char tmp_mem[300] __attribute__((aligned(16)));
				VH_NONTRIV(n > 1);
				for(i=0; i<n; i++)
				{
					v[i] = trunc_to(seq[i]/2, 0x9122334455667788ull * (i*2+3) + a*0x0101010101ull);
					off[i] = wn;
					ref_bytes(want+wn, seq[i]/2, seq[i]&1, v[i]);
					wn += width[seq[i]/2];
				}
				off[n] = wn;
				VH_DESC("sequence of %d: %s %s ...: %s", n, tname[a/2], a&1 ? "BE" : "LE", vh_q(want, wn));
				b = kind == 0 ? strbuf_create_fixed(tmp_mem, sizeof(strbuf_t)+wn+1) : strbuf_create_empty(kind == 1 ? 0 : wn, arena_allocator());
				for(i=0; i<n; i++)
				{
					pack(&b, seq[i]/2, seq[i]&1, v[i]);
					vh->trans++; vh->traces++; vh->states++;
					VH_CHECK(b->size == off[i+1] && !memcmp(b->cstr, want, b->size) && b->cstr[b->size] == 0, "after packing %d values the buffer holds %s, expected %s", i+1, vh_q(b->cstr, b->size), vh_q(want, off[i+1]));
				}
				char* p = vh_slot_set(&uslot, b->cstr, wn, (int)x&7);
				strview_t s = RV(p, wn);
				for(i=0; i<n; i++)
				{
					uint64_t r = unpack(&s, seq[i]/2, seq[i]&1);
					vh->trans++; vh->traces++;
					VH_CHECK(r == v[i], "value %d of %s (%s %s) unpacked as 0x%llx, expected 0x%llx", i, vh_q(want, wn), tname[seq[i]/2], seq[i]&1 ? "BE" : "LE", (unsigned long long)r, (unsigned long long)v[i]);
					VH_CHECK(s.size == wn-off[i+1] && (!s.size || s.data == p+off[i+1]), "after unpacking %d values %d bytes are left, expected %d", i+1, s.size, wn-off[i+1]);
				}
				if((unsigned long)n*2 > vh->maxdepth) vh->maxdepth = n*2;
				strbuf_destroy(&b);
			}
		}
	}
	vh_section("variables of the caller and full buffers");
	if(vh_slice())
	{
		//	names which a macro might use itself
		#define NAMED(nm, ty, val) if(vh_case()) { ty nm = (ty)(val); unsigned char want[8]; strbuf_t* b = STRBUF_FIXED_CAP(16); VH_DESC("variable named " #nm); \
			STRBUF_PACK_BE(&b, nm); for(i=0; i<(int)sizeof(ty); i++) want[i] = (unsigned char)((uint64_t)(val) >> 8*(mirror ? i : sizeof(ty)-1-i)); \
			VH_CHECK(b->size == sizeof(ty) && !memcmp(b->cstr, want, sizeof(ty)), "packing a variable named " #nm " gave %s", vh_q(b->cstr, b->size)); \
			strview_t v = strbuf_view(&b); nm = 0; STRVIEW_UNPACK_BE(nm, v); VH_CHECK(nm == (ty)(val), "unpacking to a variable named " #nm); \
			strbuf_assign(&b, RV("", 0)); STRBUF_PACK_LE(&b, nm); v = strbuf_view(&b); nm = 0; STRVIEW_UNPACK_LE(nm, v); VH_CHECK(nm == (ty)(val), "packing LE a variable named " #nm); }
		NAMED(tmp, uint32_t, 0x11223344) NAMED(src, uint16_t, 0xA1B2) NAMED(dst, uint64_t, 0x0102030405060708ull) NAMED(x, int16_t, 0x7FFE) NAMED(a, uint32_t, 0xDEADBEEF) NAMED(in, uint64_t, 0xF1F2F3F4F5F6F7F8ull)
		NAMED(out, int32_t, 0x01020304) NAMED(view, uint8_t, 0x9C) NAMED(val, uint16_t, 0x1234) NAMED(t, uint32_t, 0x55667788) NAMED(value, int64_t, 0x0A0B0C0D0E0F1011ll) NAMED(str, uint16_t, 0xFEED) NAMED(buf, uint32_t, 0xCAFEBABE)
		NAMED(data, uint64_t, 0x8877665544332211ull) NAMED(size, uint32_t, 0x01000000) NAMED(result, uint16_t, 0x00FF) NAMED(retval, uint32_t, 7) NAMED(word, int32_t, 0x12345678) NAMED(bytes, uint16_t, 0x0180) NAMED(swapped, uint32_t, 0x80000001u)
		for(type=0; type<8; type++) for(int cap=0; cap<=20; cap++) for(int size=0; size<=cap; size++) for(int be=0; be<2; be++)
		{
			if(!vh_case()) continue;
			VH_DESC("%s into a fixed buffer of %d holding %d", tname[type], cap, size);
			static unsigned char txt[32] = "abcdefghijklmnopqrstuvwxyz";
			unsigned char want[64];
			m_t m = {K_FIXED, cap, size, txt};
			strbuf_t* b = bm_make(&m);
			memcpy(want, txt, size); ref_bytes(want+size, type, be, 0x1122334455667788ull);
			pack(&b, type, be, 0x1122334455667788ull);
			int n = size + width[type] > cap ? 0 : size + width[type];
			vh->trans++;
			VH_CHECK(b->size == n && !memcmp(b->cstr, want, n) && b->cstr[n] == 0 && b->capacity == cap, "%s into a fixed buffer of %d holding %d gave %s", tname[type], cap, size, vh_q(b->cstr, b->size));
		}
	}
	{
		static char fx[sizeof(strbuf_t)+40] __attribute__((aligned(16)));
		TRIPLE_EACH(b)
		{
			uint64_t v = (uint64_t)b[0] | (uint64_t)b[1] << 8 | (uint64_t)b[2] << 16;
			VH_DESC("%s", vh_q(b, 3));
			VH_NONTRIV(1);
			strbuf_t* f = strbuf_create_fixed(fx, sizeof(fx));
			unsigned char e[24], * p = e;
			struct { int type; bool be; uint64_t v; } q[4] = {{4, true, v}, {5, false, v << 8}, {6, true, v << 24 | 0x80}, {7, false, v << 40 | v >> 20}};
			for(int i=0; i<4; i++) { pack(&f, q[i].type, q[i].be, q[i].v); ref_bytes(p, q[i].type, q[i].be, q[i].v); p += width[q[i].type]; }
			VH_CHECK(f->size == 24 && !memcmp(f->cstr, e, 24), "packing the bytes %s gave %s, expected %s", vh_q(b, 3), vh_q(f->cstr, f->size), vh_q(e, 24));
			strview_t s = strbuf_view(&f);
			for(int i=0; i<4; i++) VH_CHECK(unpack(&s, q[i].type, q[i].be) == trunc_to(q[i].type, q[i].v), "unpacking the bytes %s as number %d", vh_q(b, 3), i);
			VH_CHECK(!s.size, "%d bytes left", s.size);
			vh->trans += 8;
		}
		free(b);
	}
	return vh_end();
}
