//	C28 encryption and its inverse, C29 (-DC29) decryption of anything
#include "bufmodel.h"
#include "refview.h"
#include "refaes.h"
#include "strbuf_crypt.h"
static vh_slot_t kslot, vslot;
static uint8_t KEY[32], IV[16];
static const char* kname[NB_KINDS] = {"fixed", "dynamic", "dynamic (in place)", "dynamic (downwards)"};
static const char* what_str(bool enc, const m_t* m) { static char t[900]; snprintf(t, sizeof(t), "%s of a %s", enc ? "encrypt" : "decrypt", m_str(m)); return t; }
//	one call on the buffer *pb which holds m->b,m->size. m is changed to the state expected.
static void crypt_step(strbuf_t** pb, bool enc, m_t* m, const uint8_t* key, const uint8_t* iv)
{
	strbuf_t* was = *pb;
	bool ok = true;
	int n = m->size, allocs = arena_allocs;
	static uint8_t want[9000];
	uint8_t* k = vh_slot_set(&kslot, key, 32, n&7);
	uint8_t* v = vh_slot_set(&vslot, iv, 16, (n>>1)&7);
	strview_t r = enc ? strbuf_encrypt(pb, k, v) : strbuf_decrypt(pb, k, v);
	strbuf_t* b = *pb;
	memcpy(want, m->b, n);
	vh->trans++; vh->traces++;
	if(enc)
	{
		if(m->kind == K_FIXED && n/16*16+16 > m->cap) ok = false;
		else n = ra_encrypt(key, iv, want, n);
	}
	else n = ra_decrypt(key, iv, want, n);
	VH_CHECK(!memcmp(k, key, 32) && !memcmp(v, iv, 16), "%s modified the key or the initial vector", what_str(enc, m));
	VH_CHECK(b && b->size >= 0 && b->size <= b->capacity && b->cstr[b->size] == 0, "%s: size %d capacity %d or not terminated", what_str(enc, m), b->size, b->capacity);
	VH_CHECK(b->size == n && !memcmp(b->cstr, want, n), "%s gave %s, expected %s", what_str(enc, m), vh_q(b->cstr, b->size), vh_q(want, n));
	if(m->kind == K_FIXED)
	{
		VH_CHECK(b == was && b->capacity == m->cap && !b->allocator.allocator, "%s: moved or resized", what_str(enc, m));
	}
	else
	{
		VH_CHECK(arena_live_count() == 1, "%s: %d live allocations afterwards", what_str(enc, m), arena_live_count());
		VH_CHECK(arena_size(b) >= (long)sizeof(strbuf_t) + b->capacity + 1, "%s: allocation of %ld bytes for a capacity of %d", what_str(enc, m), arena_size(b), b->capacity);
		VH_CHECK(b->allocator.allocator == arena_alloc && b->allocator.app_data == arena_app(), "%s: allocator changed", what_str(enc, m));
		if(enc) VH_CHECK(arena_allocs > allocs, "%s: the context did not come from the buffer's allocator", what_str(enc, m));
		VH_CHECK(b->capacity >= m->cap, "%s: capacity reduced to %d", what_str(enc, m), b->capacity);
	}
	if(!ok) VH_CHECK(!r.data && !r.size, "%s without room returned a valid view", what_str(enc, m));
	else if(r.data || enc || n) VH_CHECK(r.data == b->cstr && r.size == n, "%s: the returned view is not the content", what_str(enc, m));
	memcpy(m->b, want, n);
	m->size = n; m->cap = b->capacity;
}
//	after anything, the buffer takes edits
static void usable(strbuf_t** pb, m_t* m)
{
	strview_t r = strbuf_append_char(pb, 'u');
	if(m->kind == K_FIXED && m->size == m->cap) VH_CHECK((*pb)->size == 0, "append_char to a full fixed buffer");
	else VH_CHECK((*pb)->size == m->size+1 && !memcmp((*pb)->cstr, m->b, m->size) && (*pb)->cstr[m->size] == 'u' && r.size == m->size+1, "buffer is not usable afterwards");
	if(m->kind != K_FIXED) { strbuf_destroy(pb); VH_CHECK(arena_live_count() == 0, "%d allocations left after destroy", arena_live_count()); }
}
static void pattern(uint8_t* d, int n, int p)
{
	for(int i=0; i<n; i++) d[i] = p == 0 ? 0 : p == 1 ? i*11+3 : p == 2 ? 0x10 : p == 3 ? 0xFF : p == 4 ? (uint8_t)(16-n%16) : p == 5 ? 1 : i*i*7+i/3;
}
#define NP 7
static void keys(int k)
{
	for(int i=0; i<32; i++) KEY[i] = k == 0 ? 0 : k == 1 ? i : k == 2 ? 0xFF : k == 3 ? 0xA5^(i*29) : (uint8_t)(i*k*13+k);
	for(int i=0; i<16; i++) IV[i] = k == 0 ? 0 : k == 1 ? 0x10+i : k == 2 ? 0xFF : k == 3 ? 0x3C^(i*31) : (uint8_t)(i*k*7+k*3);
}
//	make, encrypt, decrypt back
static void roundtrip(int kind, int cap, const uint8_t* t, int n)
{
	static uint8_t w[9000];
	if(!vh_case()) return;
	memcpy(w, t, n);
	m_t m = {kind, cap, n, w};
	VH_DESC("%s buffer of %d holding %d: %s", kname[kind], cap, n, vh_q(t, n));
	VH_NONTRIV(1);
	strbuf_t* b = bm_make(&m);
	crypt_step(&b, true, &m, KEY, IV);
	if(kind == K_FIXED && n/16*16+16 > cap) { usable(&b, &m); return; }
	if(n < 200) { m_t k = m; (void)k; }
	crypt_step(&b, false, &m, KEY, IV);
	VH_CHECK(b->size == n && !memcmp(b->cstr, t, n), "decrypting what was encrypted gave %s, expected %s", vh_q(b->cstr, b->size), vh_q(t, n));
	usable(&b, &m);
}
static void vectors(void)
{
	uint8_t k[32], iv[16] = {0}, p[80], c[80];
	ra_key rk;
	ra_hex(k, "000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f");
	ra_hex(p, "00112233445566778899aabbccddeeff"); ra_hex(c, "8ea2b7ca516745bfeafc49904b496089");
	ra_expand(&rk, k); ra_enc(&rk, p);
	if(memcmp(p, c, 16)) vh_fail("harness: reference fails FIPS 197 C.3");
	ra_hex(k, "603deb1015ca71be2b73aef0857d77811f352c073b6108d72d9810a30914dff4");
	ra_hex(iv, "000102030405060708090a0b0c0d0e0f");
	ra_hex(p, "6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e5130c81c46a35ce411e5fbc1191a0a52eff69f2445df4f9b17ad2b417be66c3710");
	ra_hex(c, "f58c4c04d6e5f1ba779eabfb5f7bfbd69cfc4e967edb808d679f777bc6702c7d39f23369a9d9bacfa530e26304231461b2eb05e2c39be9fcda6c19078c6a9d1b");
	uint8_t q[80]; memcpy(q, p, 64);
	ra_cbc_enc(k, iv, q, 64);
	if(memcmp(q, c, 64)) vh_fail("harness: reference fails SP 800-38A F.2.5");
	ra_cbc_dec(k, iv, q, 64);
	if(memcmp(q, p, 64)) vh_fail("harness: reference fails SP 800-38A F.2.6");
	if(!vh_case()) return;
	VH_DESC("SP 800-38A F.2.5");
	memcpy(KEY, k, 32); memcpy(IV, iv, 16);
	m_t m = {K_MOVE, 0, 64, p};
	m.cap = 64;
	strbuf_t* b = bm_make(&m);
	strbuf_encrypt(&b, KEY, IV);
	VH_CHECK(b->size == 80 && !memcmp(b->cstr, c, 64), "SP 800-38A F.2.5 CBC-AES256 vector: got %s", vh_q(b->cstr, b->size));
	strbuf_decrypt(&b, KEY, IV);
	VH_CHECK(b->size == 64 && !memcmp(b->cstr, p, 64), "SP 800-38A F.2.6 CBC-AES256 vector: got %s", vh_q(b->cstr, b->size));
}
//	content near INT_MAX, in reserved address space whose untouched pages read as zero. While huge, the block cipher is the identity.
#define REGION ((long)INT_MAX + (2L<<20))
#include <sys/mman.h>
static unsigned char* huge_base; static bool huge; static long huge_blocks; static int huge_allocs, huge_bufs;
static unsigned char huge_ctx[4096] __attribute__((aligned(64))); static bool huge_ctx_live;
//	(where the code has no such functions, the blocks are really encrypted and only the sizes are judged)
extern void __real_aes256_enc(void*, void*) __attribute__((weak)); extern void __real_aes256_dec(void*, void*) __attribute__((weak));
void __wrap_aes256_enc(void* b, void* c) { if(huge) huge_blocks++; else __real_aes256_enc(b, c); }
void __wrap_aes256_dec(void* b, void* c) { if(huge) huge_blocks++; else __real_aes256_dec(b, c); }
static void* huge_alloc(struct strbuf_allocator_t* self, void* p, size_t n)
{
	VH_CHECK(self->app_data == huge_base, "wrong app_data");
	huge_allocs++;
	if(p == huge_ctx && !n) { VH_CHECK(huge_ctx_live, "freed twice"); huge_ctx_live = false; return NULL; }
	if(!p && n && n <= sizeof(huge_ctx)) { VH_CHECK(!huge_ctx_live, "two contexts"); huge_ctx_live = true; return huge_ctx; }
	VH_CHECK(n <= sizeof(strbuf_t) + (size_t)INT_MAX + 1 && n, "the allocator is asked for %zu bytes", n);
	VH_CHECK(p == (p ? huge_base : NULL), "unknown address given to the allocator");
	mprotect(huge_base, REGION, PROT_NONE);
	mprotect(huge_base, ((long)n + 4095) & ~4095L, PROT_READ|PROT_WRITE);
	huge_bufs++;
	return huge_base;
}
static strbuf_allocator_t huge_alc;
static void huge_case(bool dyn, int cap, int n, bool back)
{
	uint8_t iv[16];
	if(!vh_case()) return;
	VH_DESC("encrypt %d bytes in a %s buffer of capacity %d", n, dyn ? "dynamic" : "fixed", cap);
	VH_NONTRIV(1);
	keys(1); memcpy(iv, IV, 16);
	madvise(huge_base, REGION, MADV_DONTNEED);
	huge_alc = (strbuf_allocator_t){ .app_data = huge_base, .allocator = huge_alloc };
	huge_ctx_live = false; huge_blocks = 0;
	if(!dyn) { mprotect(huge_base, REGION, PROT_NONE); mprotect(huge_base, (sizeof(strbuf_t) + (long)cap + 1 + 4095) & ~4095L, PROT_READ|PROT_WRITE); }
	strbuf_t* b = dyn ? strbuf_create_empty(cap, &huge_alc) : strbuf_create_fixed(huge_base, sizeof(strbuf_t) + (size_t)cap + 1);
	VH_CHECK(b && b->capacity >= cap, "not created");
	b->size = n;
	for(int i=1; i<=40; i++) b->cstr[n-i] = 'a' + i%26;
	cap = b->capacity;
	huge = true;
	strview_t r = strbuf_encrypt(&b, KEY, IV);
	long want = (long)n/16*16+16;
	VH_CHECK(b && !huge_ctx_live, "no buffer, or the context is not freed");
	vh->trans++; vh->traces++;
	if(want > (dyn ? INT_MAX : cap))
	{
		VH_CHECK(!r.data && !r.size && b->size == n && b->capacity == cap && b->cstr[n] == 0 && huge_blocks == 0, "encryption of %d bytes, %ld when padded, left size %d capacity %d, view size %d", n, want, b->size, b->capacity, r.size);
		for(int i=1; i<=40; i++) VH_CHECK(b->cstr[n-i] == 'a' + i%26, "refused encryption changed the content");
		huge = false;
		return;
	}
	VH_CHECK(b->size == want && b->capacity >= want && b->cstr[want] == 0 && r.data == b->cstr && r.size == want, "encryption of %d bytes left size %d capacity %d, view size %d", n, b->size, b->capacity, r.size);
	if(huge_blocks) VH_CHECK(!memcmp(b->cstr, iv, 16) && !memcmp(b->cstr + want/32*16, iv, 16), "block not chained");
	if(huge_blocks) VH_CHECK(huge_blocks*16 == want, "%ld blocks", huge_blocks);
	if(back)
	{
		r = strbuf_decrypt(&b, KEY, IV);
		VH_CHECK(b->size == n && b->cstr[n] == 0 && r.size == n && !b->cstr[0] && !b->cstr[n/2], "decryption of %ld bytes left size %d", want, b->size);
		for(int i=1; i<=40; i++) VH_CHECK(b->cstr[n-i] == 'a' + i%26, "decryption gave other content");
	}
	huge = false;
}
static void huge_section(void)
{
	vh_section("content near INT_MAX");
	huge_base = mmap(NULL, REGION + 8192, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	if(huge_base == MAP_FAILED) { perror("mmap"); exit(2); }
	//	refused
	for(int n=INT_MAX-15; n>0 && n<=INT_MAX; n++)
	{
		if(vh_slice()) for(int k=0; k<3; k++) huge_case(k, k == 2 ? n : INT_MAX, n, true);
		if(n == INT_MAX) break;
	}
	for(int n=INT_MAX-40; n<=INT_MAX-16; n++) if(vh_slice()) huge_case(false, n/16*16+15, n, true);
	if(vh_thorough && vh_slice()) for(int d=16; d<=32; d+=8) { huge_case(true, INT_MAX-d, INT_MAX-d, true); huge_case(false, INT_MAX-15, INT_MAX-d, true); }
}
//	content of more than 65535 blocks
static void* plain_alloc(struct strbuf_allocator_t* self, void* p, size_t n) { (void)self; if(!n) { free(p); return NULL; } return realloc(p, n); }
static void many_blocks(void)
{
	static const long N[] = {65519, 65535, 65536, 524271, 524272, 524287, 524288, 1048559, 1048560, 1048575, 1048576, 1048577, 1114112, 9437189, 4194304};
	vh_section("more than 65535 blocks");
	for(int i=0; i<(vh_thorough?15:14); i++) for(int dyn=0; dyn<2; dyn++)
	{
		if(!vh_slice()) continue;
		long n = N[i], m, fixed = sizeof(strbuf_t) + n/16*16 + 17;
		if(!vh_case()) continue;
		VH_DESC("%ld bytes in a %s buffer", n, dyn ? "dynamic" : "fixed");
		VH_NONTRIV(1);
		strbuf_allocator_t alc = { .allocator = plain_alloc };
		uint8_t* t = malloc(n), *c = malloc(n + 16), k[32], v[16];
		void* mem = dyn ? NULL : malloc(fixed);
		for(long j=0; j<n; j++) t[j] = (uint8_t)(j*j/3 + j/251 + j);
		keys(i); memcpy(k, KEY, 32); memcpy(v, IV, 16);
		memcpy(c, t, n);
		m = ra_encrypt(k, v, c, (int)n);
		strbuf_t* b = dyn ? strbuf_create_empty((int)n, &alc) : strbuf_create_fixed(mem, fixed);
		strbuf_assign(&b, RV(t, (int)n));
		VH_CHECK(b->size == n, "not created");
		strview_t r = strbuf_encrypt(&b, k, v);
		vh->trans++; vh->traces++;
		VH_CHECK(b->size == m && b->capacity >= m && !b->cstr[m] && r.size == m && r.data == b->cstr, "encryption of %ld bytes left %d bytes", n, b->size);
		for(long j=0; j<m; j++) if((uint8_t)b->cstr[j] != c[j]) vh_fail("encryption of %ld bytes is wrong at %ld", n, j);
		r = strbuf_decrypt(&b, k, v);
		vh->trans++; vh->traces++;
		VH_CHECK(b->size == n && !b->cstr[n] && r.size == n && r.data == b->cstr, "decryption of %ld bytes left %d bytes", m, b->size);
		for(long j=0; j<n; j++) if((uint8_t)b->cstr[j] != t[j]) vh_fail("decryption of %ld bytes is wrong at %ld", m, j);
		if(dyn) strbuf_destroy(&b);
		free(mem); free(t); free(c);
	}
}
#ifndef C29
int main(int argc, char** argv)
{
	vh_init(argc, argv);
	bm_init(9000, 9000);
	vh_slot_init(&kslot, 64); vh_slot_init(&vslot, 64);
	ra_tables();
	static uint8_t t[9000], t2[9000];
	int n, i, j, kind, p;
	vh_section("published vectors");
	if(vh_slice()) vectors();
	vh_section("every length, storage and content pattern");
	for(n=0; n<=(vh_thorough?400:130); n++)
	{
		int need = n/16*16+16;
		if(!vh_slice()) continue;
		for(kind=0; kind<NB_KINDS; kind++) for(p=0; p<NP; p++) for(j=0; j<(vh_thorough?6:2); j++) for(i=0; i<6; i++)
		{
			int cap = i == 0 ? need : i == 1 ? n : i == 2 ? need+1 : i == 3 ? need-1 : i == 4 ? need+16 : need+100;
			pattern(t, n, p);
			keys(1 + j*2 + p%2);
			if(cap >= n) roundtrip(kind, cap, t, n);
		}
	}
	vh_section("long content");
	{
		static const int L[] = {255, 256, 1000, 1023, 1024, 4095, 4096, 4097, 8000};
		for(i=0; i<9; i++) for(kind=0; kind<NB_KINDS; kind++)
		{
			if(!vh_slice()) continue;
			for(p=0; p<NP; p++) { pattern(t, L[i], p); keys(p); roundtrip(kind, kind == K_FIXED ? L[i]/16*16+16 : L[i], t, L[i]); }
		}
	}
	vh_section("every room in a fixed buffer");
	for(n=0; n<=(vh_thorough?80:50); n++)
	{
		if(!vh_slice()) continue;
		for(int cap=n; cap<=n+40; cap++) { pattern(t, n, 1); keys(3); roundtrip(K_FIXED, cap, t, n); }
	}
	vh_section("every bit and byte of key, vector and text");
	for(i=0; i<64; i++)
	{
		if(!vh_slice()) continue;
		//	i: place among 32 key bytes, 16 vector bytes and 16 text bytes
		for(int bg=0; bg<(vh_thorough?4:2); bg++) for(int v=0; v<256; v++)
		{
			if(!vh_case()) continue;
			keys(bg); memset(t2, bg == 1 ? 0x77 : 0, 32);
			if(i < 32) KEY[i] = v; else if(i < 48) IV[i-32] = v; else t2[i-48] = v;
			VH_DESC("byte %d = %d over background %d", i, v, bg);
			VH_NONTRIV(1);
			n = 16 + bg*3;
			memcpy(t, t2, n);
			m_t m = {K_FIXED, 48, n, t};
			strbuf_t* b = bm_make(&m);
			crypt_step(&b, true, &m, KEY, IV);
			crypt_step(&b, false, &m, KEY, IV);
			VH_CHECK(b->size == n && !memcmp(b->cstr, t2, n), "decrypting what was encrypted gave %s, expected %s", vh_q(b->cstr, b->size), vh_q(t2, n));
		}
	}
	//	every history of encryptions and decryptions with two keys, and edits
	vh_section("every history of calls");
	{
		int depth = vh_thorough ? 6 : 5, nop = 6;
		for(kind=0; kind<NB_KINDS; kind++) for(int first=0; first<6; first++) for(int second=0; second<6; second++)
		{
			if(!vh_slice()) continue;
			for(int start=0; start<(vh_thorough?34:3); start++)
				for(long x=0; x<vh_pow(nop, depth-2); x++)
				{
					if(!vh_case()) continue;
					int seq[8] = {first, second}; long y = x;
					for(i=2; i<depth; i++) { seq[i] = (int)(y%nop); y /= nop; }
					n = vh_thorough ? start : start*15;
					pattern(t, n, 1);
					m_t m = {kind, kind == K_FIXED ? 64 + (int)(x&16) : n, n, t};
					VH_DESC("history %d%d%d%d%d on %s", seq[0], seq[1], seq[2], seq[3], seq[4], m_str(&m));
					VH_NONTRIV(1);
					strbuf_t* b = bm_make(&m);
					for(i=0; i<depth; i++)
					{
						keys(seq[i]&1 ? 3 : 1);
						vh->states++;
						if(seq[i] < 4) crypt_step(&b, seq[i] < 2, &m, KEY, IV);
						else if(seq[i] == 4) { strbuf_append_char(&b, 'Z'); if(m.size == m.cap && kind == K_FIXED) m.size = 0; else m.b[m.size++] = 'Z'; m.cap = b->capacity; }
						else { strbuf_assign(&b, RV("plain text 16 by", 16)); memcpy(m.b, "plain text 16 by", m.size = 16); m.cap = b->capacity; }
					}
					if((unsigned long)depth > vh->maxdepth) vh->maxdepth = depth;
					usable(&b, &m);
				}
		}
	}
	many_blocks();
	huge_section();
	return vh_end();
}
#else
static void decrypt_case(int kind, int slack, const uint8_t* c, int n)
{
	static uint8_t w[9000];
	memcpy(w, c, n);
	m_t m = {kind, n + slack, n, w};
	strbuf_t* b = bm_make(&m);
	crypt_step(&b, false, &m, KEY, IV);
	usable(&b, &m);
}
int main(int argc, char** argv)
{
	vh_init(argc, argv);
	bm_init(9000, 9000);
	vh_slot_init(&kslot, 64); vh_slot_init(&vslot, 64);
	ra_tables();
	static uint8_t t[9000], c[9000];
	int n, i, j, kind, p, v;
	vh_section("published vectors");
	if(vh_slice()) vectors();
	vh_section("every size of foreign content");
	for(n=0; n<=(vh_thorough?700:200); n++)
	{
		if(!vh_slice()) continue;
		for(kind=0; kind<NB_KINDS; kind++) for(p=0; p<NP; p++) for(j=0; j<3; j++)
		{
			if(!vh_case()) continue;
			pattern(t, n, p); keys(j+1);
			VH_DESC("%s buffer: %s", kname[kind], vh_q(t, n));
			VH_NONTRIV(n > 0);
			decrypt_case(kind, j == 0 ? 0 : j == 1 ? 1 : 40, t, n);
		}
	}
	vh_section("every value of the padding byte");
	for(n=16; n<=(vh_thorough?160:64); n+=16) for(kind=0; kind<NB_KINDS; kind++)
	{
		if(!vh_slice()) continue;
		for(v=0; v<256; v++) for(p=0; p<NP; p++) for(j=0; j<3; j++)
		{
			if(!vh_case()) continue;
			keys(1+p);
			pattern(t, n, p);
			t[n-1] = v;
			if(j == 1) for(i=0; i<v && i<n; i++) t[n-1-i] = v;			// complete padding
			VH_DESC("%s buffer, padding byte %d of %d bytes", kname[kind], v, n);
			VH_NONTRIV(v >= 1 && v <= 16);
			memcpy(c, t, n);
			ra_cbc_enc(KEY, IV, c, n);
			decrypt_case(kind, j == 2 ? 16 : 0, c, n);
		}
	}
	vh_section("every byte altered");
	for(n=0; n<=(vh_thorough?64:40); n++)
	{
		if(!vh_slice()) continue;
		for(kind=0; kind<2; kind++)
		{
			keys(3); pattern(t, n, 1);
			int m = ra_encrypt(KEY, IV, t, n);
			for(i=0; i<m; i++) for(v=1; v<256; v += vh_thorough || i >= m-32 ? 1 : 5)
			{
				if(!vh_case()) continue;
				memcpy(c, t, m);
				c[i] ^= v;
				VH_DESC("%s buffer, %d bytes encrypted, byte %d altered by %d", kname[kind], n, i, v);
				VH_NONTRIV(1);
				decrypt_case(kind, 0, c, m);
			}
			for(i=0; i<=m; i++)
			{
				if(!vh_case()) continue;
				VH_DESC("%s buffer, %d bytes encrypted, cut to %d", kname[kind], n, i);
				VH_NONTRIV(1);
				decrypt_case(kind, 0, t, i);
				decrypt_case(kind, 0, t+m-i, i);
			}
		}
	}
	vh_section("another key or vector");
	for(n=0; n<=50; n++)
	{
		if(!vh_slice()) continue;
		for(kind=0; kind<NB_KINDS; kind++) for(i=0; i<48; i++) for(v=1; v<256; v*=2)
		{
			if(!vh_case()) continue;
			keys(1); pattern(t, n, 6);
			int m = ra_encrypt(KEY, IV, t, n);
			if(i < 32) KEY[i] ^= v; else IV[i-32] ^= v;
			VH_DESC("%d bytes, byte %d of key and vector altered by %d", n, i, v);
			VH_NONTRIV(1);
			decrypt_case(kind, i&15, t, m);
		}
	}
	many_blocks();
	return vh_end();
}
#endif
