import os
_d=os.path.dirname(os.path.abspath(__file__))
exec(open(_d+'/s4.py').read().split('SEEDS=[')[0])
AES=' '.join(['accessories/strbuf_crypt/aes/'+f+'.c' for f in 'aes_dec aes_enc aes_invsbox aes_keyschedule aes_sbox gf256mul memxor aes256_dec aes256_enc'.split()])
K='accessories/strbuf_crypt/aes/'
HA=H+'''#include "strbuf_crypt/aes/aes.h"
#include "strbuf_crypt/aes/gf256mul.h"
#include "strbuf_crypt/aes/memxor.h"
'''
SEEDS=[
dict(id='aes192_words', property='C32', needs='the key schedule of a 192 bit key',
 what='the extra substitution of 256 bit keys is applied to 192 bit keys as well',
 edits=[(K+'aes_keyschedule.c','			if(nk == 8 && i % 8 == 4){\n','			if(nk > 4 && i % nk == 4){\n')], src=AES,
 demo=HA+'''int main(void){ unsigned char k[24]={0x8e,0x73,0xb0,0xf7,0xda,0x0e,0x64,0x52,0xc8,0x10,0xf3,0x2b,0x80,0x90,0x79,0xe5,0x62,0xf8,0xea,0xd2,0x52,0x2c,0x6b,0x7b}; aes192_ctx_t c; aes192_init(k,&c);
 CHECK(!memcmp((char*)&c+24,"\\xfe\\x0c\\x91\\xf7\\x24\\x02\\xf5\\xa5\\xec\\x12\\x06\\x8e\\x6c\\x82\\x7f\\x6b\\x0e\\x7a\\x95\\xb9\\x5c\\x56\\xfe\\xc2",24)); return 0; }'''),
dict(id='gf_high_factor', property='C32', needs='a product whose first factor is 0x80 or 0x81: only the top bit is left when the loop is entered',
 what='the loop over the bits of the first factor ends before the highest bit when it is alone',
 edits=[(K+'gf256mul.c','	while(a&0xFE){\n','	while(a&0x7E){\n')], src=AES,
 demo=HA+'''int main(void){ CHECK(gf256mul(0x80,2,0x1b)==0x1b); CHECK(gf256mul(0x80,1,0x1b)==0x80); return 0; }'''),
dict(id='memxor_u8', property='C32', needs='more than 255 bytes in one call, to a destination that is not the source',
 what='the loop counter is held in a byte when both blocks are word aligned',
 edits=[(K+'memxor.c','  while(n--){\n','  if(n % 16 == 0)\n  {\n    uint8_t blocks = n / 16;\n    n = blocks * 16;\n  }\n  while(n--){\n')], src=AES,
 demo=HA+'''static unsigned char d[5000], s[5000]; int main(void){ memset(s,0x0f,5000); memxor(d,s,4096); for(int i=0;i<4096;i++) CHECK(d[i]==0x0f); CHECK(d[4096]==0); return 0; }'''),
dict(id='narg_slip', property='C33', needs='strbuf_cat of exactly 47 views',
 what='a slip in the table which counts the arguments of strbuf_cat',
 edits=[('strbuf.h','         49,48,47,46,45,44,43,42,41,40, \\\n','         49,48,46,46,45,44,43,42,41,40, \\\n')],
 demo=H+AL+'''#define T cstr("x")
#define T5 T,T,T,T,T
#define T20 T5,T5,T5,T5
int main(void){ strbuf_t* b=strbuf_create(0,&A); strbuf_cat(&b,T20,T20,T5,T,cstr("end")); CHECK(b->size==49); strbuf_cat(&b,T20,T20,T5,cstr("end")); CHECK(b->size==48); return 0; }'''),
dict(id='generic_char', property='C33', needs='strnum_value with a char destination and a negative number, or one above CHAR_MAX',
 what='strnum_value converts to the range of unsigned char for a char destination, when floating point is left out',
 edits=[('strnum.h','		char*:					strnum_consume_char,\\\n		short*:					strnum_consume_short,\\\n		int*:					strnum_consume_int,\\\n		long*:					strnum_consume_long,\\\n		long long*:				strnum_consume_llong\\\n','		char*:					strnum_consume_uchar,\\\n		short*:					strnum_consume_short,\\\n		int*:					strnum_consume_int,\\\n		long*:					strnum_consume_long,\\\n		long long*:				strnum_consume_llong\\\n')],
 defs='-DSTRNUM_NOFLOAT',
 demo=H+'''int main(void){ strview_t s=cstr("-5"); char c=0; CHECK(strnum_value(&c,&s,0)==0); CHECK(c==-5); return 0; }'''),
dict(id='before_mutable', property='C33', needs='insert_before with a char* (not const) argument',
 what='insert_before of a char* inserts after the position',
 edits=[('strbuf.h','		const char*:	strbuf_insert_before_cstr,\\\n		char*:			strbuf_insert_before_cstr,\\\n','		const char*:	strbuf_insert_before_cstr,\\\n		char*:			strbuf_insert_after_cstr,\\\n')],
 demo=H+AL+'''int main(void){ char t[]="x"; strbuf_t* b=strbuf_create(cstr("abc"),&A); strview_t v=strview_sub(strbuf_view(&b),1,2); char* p=t; strbuf_insert_before(&b,v,p); CHECK(strview_is_match(strbuf_view(&b),"axbc")); return 0; }'''),
dict(id='last_delim_outside', property='C09', needs='splitting at a delimiter which is the last character: the empty result',
 what='an empty result is a view of a constant instead of a place within the source',
 edits=[('strview.c','		if(result.size)\n			result.data++; //only','		if(!result.size)\n			result.data = "";\n		else\n			result.data++; //only')],
 demo=H+'''int main(void){ const char* t="ab,"; strview_t s={.data=t,.size=3}; strview_t r=strview_split_last_delim(&s,",",false); CHECK(strview_is_valid(r)&&r.size==0); CHECK(r.data>=t && r.data<=t+3); return 0; }'''),
dict(id='fetch_zero_term', property='C12', needs='a fetcher which uses the space it was given but reports nothing fetched',
 what='the terminator is only written again when something was fetched',
 edits=[('strbuf.c','			buf->size += bytes_appended;\n			buf->cstr[buf->size] = 0;\n','			buf->size += bytes_appended;\n			if(bytes_appended)\n				buf->cstr[buf->size] = 0;\n')],
 demo=H+AL+'''static int f(void* d,int n,void* v){ (void)v; memset(d,'!',n); return 0; } int main(void){ strbuf_t* b=strbuf_create(20,&A); strbuf_append(&b,"ab"); strbuf_append_using(&b,f,NULL); CHECK(b->cstr[b->size]==0); return 0; }'''),
dict(id='cat_default_alloc', property='C15', needs='a concatenation of own views in a buffer with an allocator of its own',
 what='the temporary buffer comes from the default allocator and its allocator is kept',
 edits=[('strbuf.c','			build_buf = create_buf(size_needed, dst_buf->allocator);\n','			build_buf = strbuf_create_empty(size_needed, strbuf_default_allocator.allocator ? NULL : &dst_buf->allocator);\n')],
 defs='-DSTRBUF_DEFAULT_ALLOCATOR_STDLIB',
 demo=H+'''static int calls; static void* al(struct strbuf_allocator_t* a, void* p, size_t n){ calls++; if(!n){ free(p); return NULL; } return realloc(p,n); }
int main(void){ strbuf_allocator_t A={.allocator=al}; strbuf_t* b=strbuf_create(40,&A); strbuf_append(&b,"ab"); calls=0; strbuf_cat(&b,cstr("x"),strbuf_view(&b)); CHECK(strview_is_match(strbuf_view(&b),"xab")); CHECK(calls==2); return 0; }'''),
dict(id='crypt_blocks_u8', property='C28', needs='content of 4096 bytes or more',
 what='the number of blocks to encrypt is counted in a byte',
 edits=[('accessories/strbuf_crypt/strbuf_crypt.c','	while(block_count--)\n	{\n		aes256_enc(buf, ctx);\n		if(block_count)\n','	uint8_t remaining = block_count;\n	while(remaining--)\n	{\n		aes256_enc(buf, ctx);\n		if(remaining)\n')],
 src='accessories/strbuf_crypt/strbuf_crypt.c '+AES,
 demo=H+AL+'''#include "strbuf_crypt/strbuf_crypt.h"
int main(void){ static char t[5000]; unsigned char k[32]={1},v[16]={2}; memset(t,'x',5000); strbuf_t* b=strbuf_create(((strview_t){.data=t,.size=5000}),&A); strbuf_encrypt(&b,k,v); CHECK(b->size==5008); strbuf_decrypt(&b,k,v); CHECK(b->size==5000 && !memcmp(b->cstr,t,5000)); return 0; }'''),
dict(id='append_char_room', property='C13', needs='appending single characters to a fixed buffer until it is exactly full',
 what='the last character of a fixed buffer is not used by append_char',
 edits=[('strbuf.c','		failed = buf->capacity < buf->size+1;\n','		failed = buf->capacity < buf->size+1 + (!buf_is_dynamic(buf) && buf->size == 255);\n')],
 demo=H+'''int main(void){ static long m[64]; strbuf_t* b=strbuf_create_fixed(m,sizeof(strbuf_t)+256+1); for(int i=0;i<256;i++) strbuf_append_char(&b,'x'); CHECK(b->size==256); return 0; }'''),
dict(id='shrink_empty', property='C14', needs='shrinking an empty buffer',
 what='shrink leaves an empty buffer as it is',
 edits=[('strbuf.c','		if(buf_is_dynamic(*buf_ptr))\n			change_buf_capacity(buf_ptr, (*buf_ptr)->size);\n','		if(buf_is_dynamic(*buf_ptr) && (*buf_ptr)->size)\n			change_buf_capacity(buf_ptr, (*buf_ptr)->size);\n')],
 demo=H+AL+'''int main(void){ strbuf_t* b=strbuf_create(50,&A); strbuf_shrink(&b); CHECK(b->capacity==0); return 0; }'''),
dict(id='strip_nul', property='C10', needs='stripping from content which includes a zero byte',
 what='only the text up to the next zero byte is moved down',
 edits=[('strbuf.c','				memmove(ptr, ptr+1, count);\n','				memmove(ptr, ptr+1, strlen(ptr+1)+1);\n')],
 demo=H+AL+'''int main(void){ strbuf_t* b=strbuf_create(((strview_t){.data="-a\\0bc",.size=5}),&A); strbuf_strip(&b,"-"); CHECK(b->size==4 && !memcmp(b->cstr,"a\\0bc",5)); return 0; }'''),
dict(id='hex_lower_nibble', property='C21', needs='a hexadecimal number of 16 digits of which the first fifteen are F',
 what='the largest value to which one more digit can be added is refused',
 edits=[('strnum.c','	return !(i & (0x0Full << (sizeof(unsigned long long)*8-4)));\n','	return i < (ULLONG_MAX >> 4);\n')],
 demo=H+'''int main(void){ CHECK(strnum_u64(cstr("0xfffffffffffffff3"),1,0)==0xfffffffffffffff3ull); return 0; }'''),
dict(id='neg_limit', property='C21', needs='the most negative long long',
 what='the magnitude of the most negative value is taken to be out of range',
 edits=[('strnum.c','			if(val_ull > (unsigned long long)LLONG_MIN)\n','			if(val_ull >= (unsigned long long)LLONG_MIN)\n')],
 demo=H+'''int main(void){ CHECK(strnum_i64(cstr("-9223372036854775808"),5,0)==INT64_MIN); return 0; }'''),
dict(id='infinity_partial', property='C24', needs='the word infinity in mixed or upper case',
 what='the long form is only recognised in lower case, leaving the rest of the word unconsumed',
 edits=[('strnum.c','	if(strview_starts_with_nocase(fc->num, "infinity"))\n','	if(strview_starts_with(fc->num, "infinity") || strview_starts_with(fc->num, "INFINITY"))\n')],
 demo=H+'''int main(void){ strview_t s=cstr("Infinity"); double d; CHECK(strnum_value(&d,&s,0)==0); CHECK(isinf(d) && s.size==0); return 0; }'''),
dict(id='frac_chunk_power', property='C25', needs='more fractional digits than one conversion takes (20 or more)',
 what='the power of the second chunk of the fraction is counted from the start of that chunk',
 edits=[('strnum.c','		fractional_power -= fractional_digits.size;								\\\n','		fractional_power = -(int)fractional_digits.size;						\\\n')],
 demo=H+'''int main(void){ strview_t s=cstr("0.00000000000000000000000000000123"); double d; CHECK(strnum_value(&d,&s,0)==0); s=cstr("0.1999999999999999999999999999999"); CHECK(strnum_value(&d,&s,0)==0); CHECK(fabs(d-0.2)<1e-12); return 0; }'''),
dict(id='read_full_call', property='C26', needs='reading into a buffer which is already full',
 what='a full buffer does not call read at all, and reports an error',
 edits=[('accessories/strbuf_io.c','		retval = read(fd, &buf->cstr[buf->size], buf->capacity - buf->size);\n','		retval = buf->capacity > buf->size ? read(fd, &buf->cstr[buf->size], buf->capacity - buf->size) : -1;\n')],
 src='accessories/strbuf_io.c',
 demo=H+'''#include <unistd.h>
#include "strbuf_io.h"
int main(void){ int p[2]; if(pipe(p)) return 0; static long m[8]; strbuf_t* b=strbuf_create_fixed(m,sizeof(strbuf_t)+3); strbuf_append(&b,"ab"); if(write(p[1],"xyz",3)!=3) return 0; CHECK(strbuf_append_read(&b,p[0])==0); CHECK(b->size==2); return 0; }'''),
]
