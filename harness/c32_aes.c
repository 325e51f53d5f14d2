//	C32 the building blocks of the AES library: key schedules, block functions, GF(256) arithmetic, memxor
#include "vh.h"
#include "refaes.h"
#include "aes/aes.h"
#include "aes/gf256mul.h"
#include "aes/memxor.h"
#include "aes/aes_sbox.h"
#include "aes/aes_invsbox.h"
static vh_slot_t ks, cs, bs, ms, md;	// key, context, block, memxor's source and destination
static const int NK[3] = {4, 6, 8};

//	a few different 32 byte patterns
static void pattern(uint8_t* d, int n, int kind)
{
	for(int i=0; i<n; i++) d[i] = kind == 0 ? 0 : kind == 1 ? 0xFF : kind == 2 ? i : kind == 3 ? 0xA5 ^ i*37 : ra_sb[(i*29 + kind) & 255];
}
static void* fresh_ctx(int bytes, int off)
{
	uint8_t junk[240];
	memset(junk, 0xC3, sizeof(junk));
	void* c = vh_slot_set(&cs, junk, bytes, off);
	VH_FRESH(c, bytes);
	return c;
}
//	schedule of one key through one entry; returns the context (of exactly the size of that key length's type)
static void* schedule(const uint8_t* key, int nk, bool generic, int koff, int coff, ra_key* rk)
{
	int bytes = 16*(nk+7);
	uint8_t* k = vh_slot_set(&ks, key, 4*nk, koff);
	void* c = fresh_ctx(bytes, coff);
	if(generic) aes_init(k, 32*nk, c);
	else if(nk == 4) aes128_init(k, c);
	else if(nk == 6) aes192_init(k, c);
	else aes256_init(k, c);
	ra_expand_nk(rk, key, nk);
	for(int i=0; i<bytes; i++)
		VH_CHECK(((uint8_t*)c)[i] == rk->rk[i/16][i%16], "%s: byte %d of round key %d is %02x, FIPS 197 gives %02x; key %s", generic ? "aes_init" : nk == 4 ? "aes128_init" : nk == 6 ? "aes192_init" : "aes256_init",
			i%16, i/16, ((uint8_t*)c)[i], rk->rk[i/16][i%16], vh_q(key, 4*nk));
	VH_CHECK(!memcmp(k, key, 4*nk), "the key schedule changed the key");
	return c;
}
static void block(void* c, int nk, const ra_key* rk, const uint8_t* in, int off, bool wrapper)
{
	uint8_t ref[16], *b = vh_slot_set(&bs, in, 16, off);
	int rounds = nk + 6, bytes = 16*(nk+7);
	memcpy(ref, in, 16);
	ra_enc_r(rk, ref, rounds);
	if(wrapper) aes256_enc(b, c); else aes_encrypt_core((void*)b, c, rounds);
	VH_CHECK(!memcmp(b, ref, 16), "%s of block %s with %d rounds gives %s, FIPS 197 gives %s", wrapper ? "aes256_enc" : "aes_encrypt_core", vh_q(in, 16), rounds, vh_q(b, 16), vh_q(ref, 16));
	if(wrapper) aes256_dec(b, c); else aes_decrypt_core((void*)b, c, rounds);
	VH_CHECK(!memcmp(b, in, 16), "%s with %d rounds does not invert the encryption of %s: %s", wrapper ? "aes256_dec" : "aes_decrypt_core", rounds, vh_q(in, 16), vh_q(b, 16));
	b = vh_slot_set(&bs, in, 16, off ^ 3);
	memcpy(ref, in, 16);
	ra_dec_r(rk, ref, rounds);
	if(wrapper) aes256_dec(b, c); else aes_decrypt_core((void*)b, c, rounds);
	VH_CHECK(!memcmp(b, ref, 16), "%s of block %s with %d rounds gives %s, FIPS 197 gives %s", wrapper ? "aes256_dec" : "aes_decrypt_core", vh_q(in, 16), rounds, vh_q(b, 16), vh_q(ref, 16));
	for(int i=0; i<bytes; i++) VH_CHECK(((uint8_t*)c)[i] == rk->rk[i/16][i%16], "the block functions changed the context at byte %d", i);
}
//	a key which differs from the current one in the context's slot is a new state of the space: schedule then encrypt
static void key_and_block(const uint8_t* key, int nk, int a, const uint8_t* in)
{
	ra_key rk;
	for(int g=0; g<2; g++)
	{
		void* c = schedule(key, nk, g, a & 7, (a >> 3) & 7, &rk);
		block(c, nk, &rk, in, a & 7, false);
		if(nk == 8) block(c, nk, &rk, in, (a + 1) & 7, true);
	}
}
static void vectors(void)
{
	static const struct { int nk; const char *key, *plain, *cipher; } V[] = {
		{4, "2b7e151628aed2a6abf7158809cf4f3c", "3243f6a8885a308d313198a2e0370734", "3925841d02dc09fbdc118597196a0b32"},
		{4, "000102030405060708090a0b0c0d0e0f", "00112233445566778899aabbccddeeff", "69c4e0d86a7b0430d8cdb78070b4c55a"},
		{6, "000102030405060708090a0b0c0d0e0f1011121314151617", "00112233445566778899aabbccddeeff", "dda97ca4864cdfe06eaf70a0ec0d7191"},
		{8, "000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f", "00112233445566778899aabbccddeeff", "8ea2b7ca516745bfeafc49904b496089"},
		{6, "8e73b0f7da0e6452c810f32b809079e562f8ead2522c6b7b", "6bc1bee22e409f96e93d7e117393172a", "bd334f1d6e45f25ff712a214571fa5cc"},
	};
	vh_section("published vectors");
	if(vh_slice())
		for(unsigned v=0; v<sizeof(V)/sizeof(*V); v++) for(int al=0; al<8; al++) if(vh_case())
		{
			uint8_t k[32], p[16], c[16], r[16];
			ra_key rk;
			ra_hex(k, V[v].key); ra_hex(p, V[v].plain); ra_hex(c, V[v].cipher);
			VH_DESC("AES-%d vector %u, alignment %d", 32*V[v].nk, v, al);
			VH_NONTRIV(true);
			ra_expand_nk(&rk, k, V[v].nk);
			memcpy(r, p, 16); ra_enc_r(&rk, r, V[v].nk+6);
			if(memcmp(r, c, 16)) abort();	// the reference itself
			ra_dec_r(&rk, r, V[v].nk+6);
			if(memcmp(r, p, 16)) abort();
			key_and_block(k, V[v].nk, al*9, p);
			key_and_block(k, V[v].nk, al*7, c);
		}
}
static void tables(void)
{
	vh_section("tables and field arithmetic");
	if(vh_slice()) for(int i=0; i<256; i++) if(vh_case())
	{
		VH_DESC("substitution of %02x", i);
		VH_NONTRIV(true);
		VH_CHECK(aes_sbox[i] == ra_sb[i], "aes_sbox[%02x] is %02x, must be %02x", i, aes_sbox[i], ra_sb[i]);
		VH_CHECK(aes_invsbox[i] == ra_is[i], "aes_invsbox[%02x] is %02x, must be %02x", i, aes_invsbox[i], ra_is[i]);
	}
	for(int red=0; red<256; red++)
	{
		if(!vh_slice()) continue;
		for(int a=0; a<256; a++) if(vh_case())
		{
			VH_DESC("gf256mul(%02x, every b, %02x)", a, red);
			VH_NONTRIV(a > 1);
			for(int b=0; b<256; b++)
			{
				//	product in GF(2)[x], then the remainder of the division by x^8 + red
				unsigned p = 0;
				for(int i=0; i<8; i++) if(a >> i & 1) p ^= (unsigned)b << i;
				for(int i=14; i>=8; i--) if(p >> i & 1) p ^= (0x100u | red) << (i-8);
				uint8_t g = gf256mul(a, b, red);
				VH_CHECK(g == p, "gf256mul(%02x, %02x, %02x) is %02x, must be %02x", a, b, red, g, p);
			}
		}
	}
}
static void keys(void)
{
	int nbg = vh_thorough ? 12 : 5;
	vh_section("keys: every byte and value");
	for(int n=0; n<3; n++) for(int bg=0; bg<nbg; bg++) for(int p=0; p<4*NK[n]; p++)
	{
		if(!vh_slice()) continue;
		for(int v=0; v<256; v++) if(vh_case())
		{
			uint8_t key[32], in[16];
			pattern(key, 32, bg); pattern(in, 16, bg+1);
			key[p] = v;
			VH_DESC("AES-%d key background %d with byte %d = %02x", 32*NK[n], bg, p, v);
			VH_NONTRIV(true);
			key_and_block(key, NK[n], v, in);
		}
	}
	vh_section("keys: every pair of bytes");
	for(int n=0; n<3; n++) for(int p=0; p<4*NK[n]; p++)
	{
		if(!vh_slice()) continue;
		for(int q=0; q<p; q++) for(int v=0; v<(vh_thorough ? 256 : 16); v++) if(vh_case())
		{
			uint8_t key[32], in[16];
			pattern(key, 32, 0); pattern(in, 16, 3);
			key[p] = vh_thorough ? v : v*17; key[q] = ~key[p] + v;
			VH_DESC("AES-%d key of zeros with byte %d = %02x, byte %d = %02x", 32*NK[n], p, key[p], q, key[q]);
			VH_NONTRIV(true);
			key_and_block(key, NK[n], v, in);
		}
	}
}
static void blocks(void)
{
	int nbg = vh_thorough ? 10 : 4;
	vh_section("blocks: every byte and value");
	for(int n=0; n<3; n++) for(int kb=0; kb<nbg; kb++) for(int bg=0; bg<nbg; bg++)
	{
		if(!vh_slice()) continue;
		uint8_t key[32];
		ra_key rk;
		void* c = NULL;
		pattern(key, 32, kb);
		for(int p=0; p<16; p++) for(int v=0; v<256; v++) if(vh_case())
		{
			uint8_t in[16];
			if(!c) c = schedule(key, NK[n], false, 0, kb & 7, &rk);
			pattern(in, 16, bg);
			in[p] = v;
			VH_DESC("AES-%d block background %d with byte %d = %02x, key background %d", 32*NK[n], bg, p, v, kb);
			VH_NONTRIV(true);
			block(c, NK[n], &rk, in, v & 7, NK[n] == 8 && (v & 1));
		}
	}
	vh_section("blocks: every pair of values in two bytes");
	for(int n=0; n<3; n++) for(int a=0; a<256; a++)
	{
		if(!vh_slice()) continue;
		uint8_t key[32];
		ra_key rk;
		void* c = NULL;
		pattern(key, 32, 3);
		for(int pr=0; pr<(vh_thorough ? 15 : 3); pr++) for(int b=0; b<256; b += vh_thorough ? 1 : 3) if(vh_case())
		{
			uint8_t in[16];
			if(!c) c = schedule(key, NK[n], false, 0, 0, &rk);
			pattern(in, 16, 4);
			in[pr] = a; in[pr+1] = b;
			VH_DESC("AES-%d block with bytes %d, %d = %02x %02x", 32*NK[n], pr, pr+1, a, b);
			VH_NONTRIV(true);
			block(c, NK[n], &rk, in, pr & 7, NK[n] == 8 && (b & 1));
		}
	}
}
//	contexts of different lengths alive at the same time, all orders of use: the block functions keep no state
static void histories(void)
{
	int depth = vh_thorough ? 7 : 5, d[7];
	long total = vh_pow(6, depth);
	vh_section("histories: contexts of all lengths, used in every order");
	for(long base=0; base<total; base+=216)
	{
		if(!vh_slice()) continue;
		for(long h=base; h<base+216 && h<total; h++) if(vh_case())
		{
			uint8_t key[32], blk[3][16], ref[3][16], c[3][240];
			ra_key rk[3];
			long x = h;
			for(int i=0; i<depth; i++) { d[i] = x%6; x /= 6; }
			VH_DESC("history %ld of %d block operations on three contexts", h, depth);
			VH_NONTRIV(true);
			vh->traces++;
			pattern(key, 32, 4);
			for(int n=0; n<3; n++)
			{
				if(n == 0) aes128_init(key, (void*)c[n]); else if(n == 1) aes192_init(key, (void*)c[n]); else aes256_init(key, (void*)c[n]);
				ra_expand_nk(&rk[n], key, NK[n]);
				pattern(blk[n], 16, n); memcpy(ref[n], blk[n], 16);
			}
			for(int i=0; i<depth; i++)
			{
				int n = d[i]%3, r = NK[n]+6;
				vh->trans++;
				if(d[i] < 3) { ra_enc_r(&rk[n], ref[n], r); if(n == 2) aes256_enc(blk[n], (void*)c[n]); else aes_encrypt_core((void*)blk[n], (void*)c[n], r); }
				else         { ra_dec_r(&rk[n], ref[n], r); if(n == 2) aes256_dec(blk[n], (void*)c[n]); else aes_decrypt_core((void*)blk[n], (void*)c[n], r); }
				VH_CHECK(!memcmp(blk, ref, sizeof(blk)), "after step %d (%s on AES-%d) the blocks are wrong", i, d[i] < 3 ? "encrypt" : "decrypt", 32*NK[n]);
			}
		}
	}
}
static void mx(int n, int doff, int soff)
{
	static uint8_t d[65535], s[65535], r[65535];
	for(int i=0; i<n; i++) { d[i] = i*7 + (i >> 8) + 1; s[i] = i*13 ^ (i >> 7) ^ 0x55; r[i] = d[i] ^ s[i]; }
	uint8_t *pd = vh_slot_set(&md, d, n, doff), *ps = vh_slot_set(&ms, s, n, soff);
	memxor(pd, ps, n);
	for(int i=0; i<n; i++) VH_CHECK(pd[i] == r[i], "memxor of %d bytes at alignments %d, %d: byte %d is %02x, must be %02x", n, doff, soff, i, pd[i], r[i]);
	VH_CHECK(!memcmp(ps, s, n), "memxor changed its source");
}
static void memxors(void)
{
	static const int L[] = {255,256,257,511,512,513,1000,1023,1024,1025,2047,2048,2049,4095,4096,4097,8191,8192,16383,16384,32766,32767,32768,32769,40000,65279,65280,65281,65534,65535};
	int max = vh_thorough ? 600 : 140;
	vh_section("memxor: every length and alignment");
	for(int n=0; n<=max; n++)
	{
		if(!vh_slice()) continue;
		for(int a=0; a<64; a++) if(vh_case())
		{
			VH_DESC("memxor of %d bytes, alignments %d %d", n, a & 7, a >> 3);
			VH_NONTRIV(n > 0);
			mx(n, a & 7, a >> 3);
		}
	}
	for(unsigned l=0; l<sizeof(L)/sizeof(*L); l++)
	{
		if(!vh_slice()) continue;
		for(int a=0; a<64; a += vh_thorough ? 1 : 11) if(vh_case())
		{
			VH_DESC("memxor of %d bytes, alignments %d %d", L[l], a & 7, a >> 3);
			VH_NONTRIV(true);
			mx(L[l], a & 7, a >> 3);
		}
	}
	vh_section("memxor: every pair of byte values");
	if(vh_slice()) for(int a=0; a<256; a++) if(vh_case())
	{
		uint8_t s[256], *p;
		VH_DESC("memxor of %02x with every byte", a);
		VH_NONTRIV(a > 0);
		for(int i=0; i<256; i++) s[i] = i;
		p = vh_slot_set(&md, s, 256, 0);
		memset(p, a, 256);
		memxor(p, vh_slot_set(&ms, s, 256, 0), 256);
		for(int i=0; i<256; i++) VH_CHECK(p[i] == (a ^ i), "memxor of %02x with %02x gives %02x", a, i, p[i]);
	}
}
int main(int argc, char** argv)
{
	vh_init(argc, argv);
	ra_tables();
	vh_slot_init(&ks, 64); vh_slot_init(&cs, 512); vh_slot_init(&bs, 64); vh_slot_init(&ms, 65600); vh_slot_init(&md, 65600);
	vectors(); tables(); keys(); blocks(); histories(); memxors();
	return vh_end();
}
