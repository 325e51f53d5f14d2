//	refaes.h - AES, and AES-256 in CBC mode, written from FIPS 197 and SP 800-38A, arithmetic in GF(2^8), no tables copied from anywhere
#ifndef REFAES_H
#define REFAES_H
#include <stdint.h>
#include <string.h>
static uint8_t ra_sb[256], ra_is[256];
static uint8_t ra_mul(uint8_t a, uint8_t b)
{
	uint8_t r = 0;
	for(; b; b >>= 1) { if(b & 1) r ^= a; a = (uint8_t)(a << 1 ^ (a & 0x80 ? 0x1B : 0)); }
	return r;
}
static void ra_init(void)
{
	for(int i=0; i<256; i++)
	{
		uint8_t inv = 0, s;
		for(int j=1; j<256 && i; j++) if(ra_mul(i, j) == 1) { inv = j; break; }
		s = 0;
		for(int b=0; b<8; b++)
			s |= (uint8_t)(((inv >> b ^ inv >> (b+4)%8 ^ inv >> (b+5)%8 ^ inv >> (b+6)%8 ^ inv >> (b+7)%8 ^ 0x63 >> b) & 1) << b);
		ra_sb[i] = s; ra_is[s] = i;
	}
}
typedef struct { uint8_t rk[15][16]; } ra_key;
//	nk words of key give nk+6 rounds
static void ra_expand_nk(ra_key* k, const uint8_t* key, int nk)
{
	uint8_t w[60][4], rc = 1;
	int n = 4*(nk+7);
	memcpy(w, key, 4*nk);
	for(int i=nk; i<n; i++)
	{
		uint8_t t[4];
		memcpy(t, w[i-1], 4);
		if(i%nk == 0) { uint8_t x = t[0]; t[0] = ra_sb[t[1]] ^ rc; t[1] = ra_sb[t[2]]; t[2] = ra_sb[t[3]]; t[3] = ra_sb[x]; rc = ra_mul(rc, 2); }
		else if(nk == 8 && i%8 == 4) for(int j=0; j<4; j++) t[j] = ra_sb[t[j]];
		for(int j=0; j<4; j++) w[i][j] = w[i-nk][j] ^ t[j];
	}
	memcpy(k->rk, w, 4*n);
}
static void ra_expand(ra_key* k, const uint8_t key[32]) { ra_expand_nk(k, key, 8); }
static uint8_t ra_m[16][256];
static void ra_tables(void) { ra_init(); for(int a=0; a<16; a++) for(int b=0; b<256; b++) ra_m[a][b] = ra_mul(b, a); }
static void ra_enc_r(const ra_key* k, uint8_t s[16], int rounds)
{
	uint8_t t[16];
	for(int i=0; i<16; i++) s[i] ^= k->rk[0][i];
	for(int r=1; r<=rounds; r++)
	{
		for(int c=0; c<4; c++) for(int row=0; row<4; row++) t[4*c+row] = ra_sb[s[4*((c+row)%4)+row]];
		for(int c=0; c<4; c++) for(int row=0; row<4; row++)
			s[4*c+row] = (r == rounds ? t[4*c+row] : ra_m[2][t[4*c+row]] ^ ra_m[3][t[4*c+(row+1)%4]] ^ t[4*c+(row+2)%4] ^ t[4*c+(row+3)%4]) ^ k->rk[r][4*c+row];
	}
}
static void ra_dec_r(const ra_key* k, uint8_t s[16], int rounds)
{
	uint8_t t[16];
	for(int i=0; i<16; i++) s[i] ^= k->rk[rounds][i];
	for(int r=rounds-1; r>=0; r--)
	{
		for(int c=0; c<4; c++) for(int row=0; row<4; row++) t[4*((c+row)%4)+row] = ra_is[s[4*c+row]];
		for(int i=0; i<16; i++) t[i] ^= k->rk[r][i];
		for(int c=0; c<4; c++) for(int row=0; row<4; row++)
			s[4*c+row] = r == 0 ? t[4*c+row] : ra_m[14][t[4*c+row]] ^ ra_m[11][t[4*c+(row+1)%4]] ^ ra_m[13][t[4*c+(row+2)%4]] ^ ra_m[9][t[4*c+(row+3)%4]];
	}
}
static void ra_enc(const ra_key* k, uint8_t s[16]) { ra_enc_r(k, s, 14); }
static void ra_dec(const ra_key* k, uint8_t s[16]) { ra_dec_r(k, s, 14); }
static void ra_cbc_enc(const uint8_t* key, const uint8_t* iv, uint8_t* d, int n)
{
	ra_key k; ra_expand(&k, key);
	for(int b=0; b<n; b+=16) { for(int i=0; i<16; i++) d[b+i] ^= b ? d[b-16+i] : iv[i]; ra_enc(&k, d+b); }
}
static void ra_cbc_dec(const uint8_t* key, const uint8_t* iv, uint8_t* d, int n)
{
	ra_key k; ra_expand(&k, key);
	for(int b=n-16; b>=0; b-=16) { ra_dec(&k, d+b); for(int i=0; i<16; i++) d[b+i] ^= b ? d[b-16+i] : iv[i]; }
}
static int ra_pad(uint8_t* d, int n) { int p = 16 - n%16; memset(d+n, p, p); return n+p; }
//	model of strbuf_encrypt / strbuf_decrypt on content d of size n; returns the new size
static int ra_encrypt(const uint8_t* key, const uint8_t* iv, uint8_t* d, int n) { n = ra_pad(d, n); ra_cbc_enc(key, iv, d, n); return n; }
static int ra_decrypt(const uint8_t* key, const uint8_t* iv, uint8_t* d, int n)
{
	if(!n || n%16) return 0;
	ra_cbc_dec(key, iv, d, n);
	return d[n-1] >= 1 && d[n-1] <= 16 ? n - d[n-1] : 0;
}
static int ra_hex(uint8_t* d, const char* s) { int n = 0; for(; *s; s++) { if(*s == ' ') continue; int v = 0; for(int i=0; i<2; i++, s++) v = v*16 + (*s <= '9' ? *s-'0' : *s-'a'+10); d[n++] = v; s--; } return n; }
#endif
