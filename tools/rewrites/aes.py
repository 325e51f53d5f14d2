#	rewrite of the AES building blocks: xtime arithmetic on words of bytes, whole state permutations, table made for the products
import sys
R=sys.argv[1]+'/accessories/strbuf_crypt/aes/'
def fn(f, head, body):
    s=open(R+f,newline='').read()
    i=s.index(head); j=s.index('\n}\n', i)+3
    s=s[:i]+head+body.strip('\n')+'\n'+s[j:]
    open(R+f,'w',newline='').write(s)
fn('memxor.c','void memxor(void* dest, const void* src, uint16_t n){','''
	uint8_t* d = dest;
	const uint8_t* s = src;
	for(uint32_t i=0; i<n; i++) d[i] ^= s[i];
}''')
s=open(R+'gf256mul.c',newline='').read()
i=s.index('uint8_t gf256mul('); j=s.rindex('}')+1
s=s[:i]+'''uint8_t gf256mul(uint8_t a, uint8_t b, uint8_t reducer){
	unsigned p = 0, r = 0x100u | reducer;
	int i;
	for(i=7; i>=0; i--){
		p <<= 1;
		if(p & 0x100) p ^= r;
		if(a >> i & 1) p ^= b;
	}
	return (uint8_t)p;
}'''+s[j:]
open(R+'gf256mul.c','w',newline='').write(s)
fn('aes_enc.c','static\nvoid aes_enc_round(aes_cipher_state_t* state, const aes_roundkey_t* k){','''
	uint8_t t[16], a, b, c, d;
	int i;
	for(i=0; i<16; i++) t[i] = aes_sbox[state->s[(i + 4*(i&3)) & 15]];
	for(i=0; i<16; i++){
		a = t[i]; b = t[(i&12)|((i+1)&3)]; c = t[(i&12)|((i+2)&3)]; d = t[(i&12)|((i+3)&3)];
		state->s[i] = (uint8_t)(gf256mul(a, 2, 0x1b) ^ gf256mul(b, 3, 0x1b) ^ c ^ d ^ k->ks[i]);
	}
}''')
fn('aes_enc.c','void aes_encrypt_core(aes_cipher_state_t* state, const aes_genctx_t* ks, uint8_t rounds){','''
	int i, r;
	for(i=0; i<16; i++) state->s[i] ^= ks->key[0].ks[i];
	for(r=1; r<rounds; r++) aes_enc_round(state, ks->key + r);
	aes_enc_lastround(state, ks->key + rounds);
}''')
s=open(R+'aes_keyschedule.c',newline='').read()
i=s.index('void aes_init('); j=s.index('\n}\n', i)+3
s=s[:i]+'''static uint8_t xt(uint8_t c){ return (uint8_t)(c << 1 ^ (c & 0x80 ? 0x1b : 0)); }
void aes_init(const void* key, uint16_t keysize_b, aes_genctx_t* ctx){
	uint8_t* w = (uint8_t*)ctx, rc = 1, t[4];
	int nk = keysize_b / 32, total = 4 * (nk + 7), i, j;
	memcpy(w, key, 4 * nk);
	for(i=nk; i<total; i++){
		for(j=0; j<4; j++) t[j] = w[4*(i-1)+j];
		if(i % nk == 0){
			uint8_t f = t[0];
			t[0] = aes_sbox[t[1]] ^ rc; t[1] = aes_sbox[t[2]]; t[2] = aes_sbox[t[3]]; t[3] = aes_sbox[f];
			rc = xt(rc);
		}
		else if(nk > 6 && i % nk == 4)
			for(j=0; j<4; j++) t[j] = aes_sbox[t[j]];
		for(j=0; j<4; j++) w[4*i+j] = w[4*(i-nk)+j] ^ t[j];
	}
}
'''+s[j:]
open(R+'aes_keyschedule.c','w',newline='').write(s)
