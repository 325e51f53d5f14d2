import os
_d=os.path.dirname(os.path.abspath(__file__))
exec(open(_d+'/s7.py').read().split('\nSEEDS=[')[0])
HC=H+'#include "strbuf_crypt/strbuf_crypt.h"\n'
HI=H+'#include <unistd.h>\n#include "strbuf_io.h"\n#include "strview_io.h"\n'
SEEDS=[
dict(id='left_whole', property='C07', needs='a position which is the whole source',
 what='split_left at the whole source returns all of it',
 edits=[('strview.c','			result = split_index(strview_ptr, (int)(pos.data - strview_ptr->data));\n','			result = split_index(strview_ptr, pos.size && pos.size == strview_ptr->size ? pos.size : (int)(pos.data - strview_ptr->data));\n')],
 demo=H+'''int main(void){ strview_t s=cstr("abc"); strview_t r=strview_split_left(&s,s); CHECK(r.size==0 && s.size==3); return 0; }'''),
dict(id='cstr_limit', property='C08', needs='a C string of more than 1 MiB',
 what='the length of a C string is limited to 1 MiB',
 edits=[('strview.c','.size = strlen(c_str)}','.size = strnlen(c_str, 1 << 20)}')],
 demo=H+'''int main(void){ char* t=malloc((1<<20)+10); memset(t,'x',(1<<20)+9); t[(1<<20)+9]=0; CHECK(cstr(t).size==(1<<20)+9); return 0; }'''),
dict(id='space_round', property='C16', needs='a static buffer whose capacity is a multiple of the alignment, filled to its capacity',
 what='static buffers have no room for the terminator, which is hidden by padding for most capacities',
 edits=[('strbuf.h','struct {strbuf_t buf; char bdy[(cap)+1];}','struct {strbuf_t buf; char bdy[(cap) ? (cap):1];}')],
 demo=H+'''int main(void){ CHECK(sizeof(strbuf_space_t(16)) > sizeof(strbuf_t)+16); return 0; }'''),
dict(id='cat_saturate', property='C17', san='-fsanitize=address -fwrapv', needs='views of together more than INT_MAX joined in a dynamic buffer',
 what='the size of a result which overflows is saturated instead of refused',
 edits=[('strbuf.c','		failed |= add_will_overflow_int(size_needed, str.size);\n		size_needed += str.size;\n','		if(add_will_overflow_int(size_needed, str.size))\n			size_needed = INT_MAX;\n		else\n			size_needed += str.size;\n')],
 demo=H+'''static void* al(struct strbuf_allocator_t* a, void* p, size_t n){ (void)a; if(n>1000000) { printf("asked for %zu\\n",n); exit(1); } if(!n){ free(p); return NULL; } return realloc(p,n); }
static strbuf_allocator_t A={.allocator=al}; static char t[10];
int main(void){ strbuf_t* b=strbuf_create(10,&A); strview_t v={.data=t,.size=INT_MAX/2+2}; strview_t r=strbuf_cat(&b,v,v); CHECK(r.size==0); return 0; }'''),
dict(id='fetch_full_nonempty', property='C19', needs='append_using on a buffer with content and no room',
 what='the fetcher is not called when a buffer with content is full',
 edits=[('strbuf.c','		bytes_appended = strbuf_fetcher(&buf->cstr[buf->size], available_space, fetch_vars);\n','		bytes_appended = (available_space || !buf->size) ? strbuf_fetcher(&buf->cstr[buf->size], available_space, fetch_vars) : 0;\n')],
 demo=H+AL+'''static int n; static int f(void* d,int s,void* v){ (void)d;(void)s;(void)v; n++; return 0; } int main(void){ strbuf_t* b=strbuf_create(cstr("ab"),&A); strbuf_shrink(&b); strbuf_append_using(&b,f,NULL); CHECK(n==1); return 0; }'''),
dict(id='pack_capture', property='C27', needs='a value to pack which is held in a variable named tmp',
 what='the temporary of the pack macros hides a variable of the caller of the same name',
 edits=[('accessories/strbuf_pack.h','	#define STRBUF_PACK_BE(dst, src) do {typeof(src) _pack_tmp = xendian_pack_BE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&_pack_tmp, .size=sizeof(_pack_tmp)});}while(0)','	#define STRBUF_PACK_BE(dst, src) do {typeof(src) tmp = xendian_pack_BE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&tmp, .size=sizeof(tmp)});}while(0)')],
 san='', demo=H+'#include "strbuf_pack.h"\n'+'''int main(void){ strbuf_t* b=strbuf_create(16,NULL); volatile uint32_t x=0x01020304; uint32_t tmp=x; STRBUF_PACK_BE(&b,tmp); CHECK(b->size==4 && !memcmp(b->cstr,"\\1\\2\\3\\4",4)); return 0; }'''),
dict(id='read_full_term', property='C12', needs='a read which fills the buffer exactly',
 what='no terminator is written when a read has filled the buffer exactly',
 edits=[(IO,'			buf->size += retval;\n			buf->cstr[buf->size] = 0;\n','			buf->size += retval;\n			if(buf->size < buf->capacity)\n				buf->cstr[buf->size] = 0;\n')],
 src='accessories/strbuf_io.c', demo=HI+'''int main(void){ static char m[sizeof(strbuf_t)+5] __attribute__((aligned(8))); memset(m,'x',sizeof(m)); strbuf_t* b=strbuf_create_fixed(m,sizeof(m)); int p[2]; if(pipe(p)) return 2; if(write(p[1],"abcdef",6)!=6) return 2; strbuf_append_read(&b,p[0]); CHECK(b->size==4 && b->cstr[4]==0); return 0; }'''),
dict(id='write_all_term', property='C12', needs='all of the content written at once',
 what='the buffer is not terminated again when all of its content was written',
 edits=[(IO,'			strbuf_assign(&buf, buf_view);\n','			if(retval == buf->size)\n				buf->size = 0;\n			else\n				strbuf_assign(&buf, buf_view);\n')],
 src='accessories/strbuf_io.c', demo=HI+'''int main(void){ strbuf_t* b=strbuf_create(cstr("abc"),NULL); int p[2]; if(pipe(p)) return 2; strbuf_write(p[1],&b); CHECK(b->size==0 && b->cstr[0]==0); return 0; }'''),
dict(id='decrypt_empty_term', property='C29', needs='decryption of damaged data, then use of the text as a C string',
 what='nothing terminates the buffer which damaged data leaves empty',
 edits=[(SC,'''			buf->allocator.allocator(&buf->allocator, ctx_ptr, 0);
			buf->cstr[buf->size] = 0;
''','''			buf->allocator.allocator(&buf->allocator, ctx_ptr, 0);
			if(buf->size)
				buf->cstr[buf->size] = 0;
''')],
 src=SC+' '+AES, demo=HC+'''int main(void){ uint8_t k[32]={0},iv[16]={0}; strbuf_t* b=strbuf_create(cstr("0123456789"),NULL); strbuf_decrypt(&b,k,iv); CHECK(b->size==0 && b->cstr[0]==0); return 0; }'''),
dict(id='pad_strict', property='C29', needs='a valid padding length with other bytes before it',
 what='all bytes of the padding are compared, so content which ends with another kind of padding is thrown away',
 edits=[(SC,'			out_len = len - pad_len;\n','		{\n			out_len = len - pad_len;\n			for(int i=1; i<=pad_len; i++)\n				if(buf[-i] != pad_len)\n					out_len = 0;\n		};\n')],
 src=SC+' '+AES, demo=HC+'''#include "strbuf_crypt/aes/aes.h"
int main(void){ uint8_t k[32]={0},iv[16]={0}; aes256_ctx_t c; uint8_t d[16]="ABCDEFGHIJKLMNO"; d[15]=5; aes256_init(k,&c); aes256_enc(d,&c);
 strbuf_t* b=strbuf_create(((strview_t){.data=(char*)d,.size=16}),NULL); strbuf_decrypt(&b,k,iv); CHECK(b->size==11 && !memcmp(b->cstr,"ABCDEFGHIJK",11)); return 0; }'''),
dict(id='enc_count_u8', property='C28', needs='content of 255 blocks or more',
 what='the number of blocks is held in a byte',
 edits=[(SC,'	int block_count = len/AES_BLOCK_SIZE + 1;\n	int out_len = block_count * AES_BLOCK_SIZE;\n','	int out_len = (len/AES_BLOCK_SIZE + 1) * AES_BLOCK_SIZE;\n	uint8_t block_count = out_len/AES_BLOCK_SIZE;\n')],
 src=SC+' '+AES, demo=HC+'''static char t[5001]; int main(void){ uint8_t k[32]={0},iv[16]={0}; memset(t,'x',5000); strbuf_t* b=strbuf_create(cstr(t),NULL); strbuf_encrypt(&b,k,iv); strbuf_decrypt(&b,k,iv); CHECK(b->size==5000 && !memcmp(b->cstr,t,5000)); return 0; }'''),
dict(id='fixed_odd', property='C13', needs='a fixed buffer of a large odd capacity filled exactly',
 what='the last byte of a large fixed buffer of odd capacity is not used by assign',
 edits=[('strbuf.c','			failed = str.size > buf->capacity;\n','			failed = str.size > (buf->capacity < 256 ? buf->capacity : (buf->capacity & ~1));\n')],
 demo=H+'''static char t[300]; static char m[sizeof(strbuf_t)+302] __attribute__((aligned(8))); int main(void){ strbuf_t* b=strbuf_create_fixed(m,sizeof(strbuf_t)+258); strbuf_assign(&b,((strview_t){.data=t,.size=257})); CHECK(b->size==257); return 0; }'''),
dict(id='line_null_eol', property='C20', needs='split_line given a NULL view and an eol state',
 what='the eol state is cleared when there is no view',
 edits=[('strview.c','	char e = 0;\n\n	if(strview_ptr && strview_ptr->size)\n','	char e = 0;\n\n	if(eol && !strview_ptr)\n		*eol = 0;\n	if(strview_ptr && strview_ptr->size)\n')],
 demo=H+'''int main(void){ char e='\\r'; strview_t r=strview_split_line(NULL,&e); CHECK(!strview_is_valid(r) && e=='\\r'); return 0; }'''),
dict(id='null_src_zero', property='C20', needs='a conversion of a NULL view to an unsigned type',
 what='the destination is set to 0 when there is no view',
 edits=[('strnum.c','	err = consume_unsigned(&val, src, options, UINT_MAX);\n	if(!err && dst)\n		*dst = (unsigned int)val;\n','	val = 0;\n	err = consume_unsigned(&val, src, options, UINT_MAX);\n	if((!err || !src) && dst)\n		*dst = (unsigned int)val;\n')],
 demo=H+'''int main(void){ unsigned int x=7; CHECK(strnum_value(&x,(strview_t*)NULL,0)==EINVAL && x==7); return 0; }'''),
dict(id='ld_exp_clamp', property='C25', needs='more than 6000 digits compensated by the exponent',
 what='the exponent is clamped to the range of the type before the digits are counted',
 edits=[('strnum.c','		value = make_ldouble(fc.integral_view, fc.fractional_view, fc.exp_value);\n','		value = make_ldouble(fc.integral_view, fc.fractional_view, fc.exp_value > 6000 ? 6000 : fc.exp_value);\n')],
 demo=H+'''static char t[8000]; int main(void){ strcpy(t,"0."); memset(t+2,'0',6500); strcpy(t+6502,"1e6501"); strview_t s=cstr(t); long double d; CHECK(strnum_value(&d,&s,0)==0 && fabsl(d-1)<1e-15L); return 0; }'''),
dict(id='frac_4096', property='C25', needs='a fraction of more than 4096 digits which begins with that many zeros',
 what='fractional digits after the 4096th are ignored',
 edits=[('strnum.c','	fractional_digits = strview_trim_end(fractional_digits, "0");				\\\n','	fractional_digits = strview_trim_end(strview_sub(fractional_digits, 0, 4096), "0");	\\\n')],
 demo=H+'''static char t[8000]; int main(void){ strcpy(t,"0."); memset(t+2,'0',5000); strcpy(t+5002,"1e5001"); strview_t s=cstr(t); double d; CHECK(strnum_value(&d,&s,0)==0 && fabs(d-1)<1e-15); return 0; }'''),
dict(id='nofloat_prefix', property='C30', needs='a build without floating point, and a prefix in upper case',
 what='prefixes are only recognised in lower case in builds without floating point',
 edits=[('strnum.c','		else if(!(options & STRNUM_BASE_BIN) && strview_is_match_nocase(base_prefix, "0x"))\n','#ifdef STRNUM_NOFLOAT\n		else if(!(options & STRNUM_BASE_BIN) && strview_is_match(base_prefix, "0x"))\n#else\n		else if(!(options & STRNUM_BASE_BIN) && strview_is_match_nocase(base_prefix, "0x"))\n#endif\n')],
 defs='-DSTRNUM_NOFLOAT', demo=H+'''int main(void){ strview_t s=cstr("0X1F"); int d=0; CHECK(strnum_value(&d,&s,0)==0 && d==31); return 0; }'''),
dict(id='aes_init_nk', property='C32', needs='aes_init with 192 bits and then 256 bits, or a key which is unaligned',
 what='the substitution in the middle of 256 bit keys is left out in the last round of the expansion',
 edits=[('accessories/strbuf_crypt/aes/aes_keyschedule.c','			if(nk == 8 && i % 8 == 4){\n','			if(nk == 8 && i % 8 == 4 && tmp.v8[0] != 0x63){\n')],
 src=AES, demo=HA+'''int main(void){ uint8_t k[32]; aes256_ctx_t c; int found=0; for(int n=0;n<65536;n++){ for(int i=0;i<32;i++) k[i]=(uint8_t)(i*7+n); k[30]=(uint8_t)(n>>8); aes256_init(k,&c); uint8_t* w=(uint8_t*)&c; 
 for(int i=12;i<60;i+=8) if(w[(i-1)*4]==0x63) { found++; uint8_t s=aes_sbox_at(0x63); CHECK(w[i*4]==(w[(i-8)*4]^s)); } } CHECK(found); return 0; }'''.replace('aes_sbox_at(0x63)','0xfb')),
dict(id='to_cstr_tight', property='C15', needs='strbuf_to_cstr on a buffer which is exactly full',
 what='the allocation of a full buffer is handed out with its old size',
 edits=[('strbuf.c','			str = (void*)(*buf_ptr);\n			memmove(str, (*buf_ptr)->cstr, len);\n			str = allocator.allocator(&allocator, str, len+1);\n','			bool full = len && len == (*buf_ptr)->capacity;\n			str = (void*)(*buf_ptr);\n			memmove(str, (*buf_ptr)->cstr, len);\n			if(!full)\n				str = allocator.allocator(&allocator, str, len+1);\n')],
 demo=H+'''static size_t last; static void* al(struct strbuf_allocator_t* a, void* p, size_t n){ (void)a; last=n; if(!n){ free(p); return NULL; } return realloc(p,n); }
static strbuf_allocator_t A={.allocator=al}; int main(void){ strbuf_t* b=strbuf_create(2,&A); strbuf_append(&b,"0123456789abcdef01234567"); strbuf_shrink(&b); int n=b->size; char* s=strbuf_to_cstr(&b); CHECK(last==(size_t)n+1); free(s); return 0; }'''),
dict(id='printf_tmp256', property='C18', needs='output of exactly 256 characters',
 what='short output is formatted once into a temporary, whose terminator replaces the last character of an output of its size',
 edits=[('strbuf.c','		append_size = vsnprintf(NULL, 0, format, va);\n','		char once[256];\n		append_size = vsnprintf(once, sizeof(once), format, va);\n'),
  ('strbuf.c','			buf->size += vsnprintf(&buf->cstr[buf->size], (size_t)(buf->capacity - buf->size) + 1, format, vb);\n','		{\n			if(append_size <= (int)sizeof(once))\n			{\n				memcpy(&buf->cstr[buf->size], once, append_size);\n				buf->size += append_size;\n				buf->cstr[buf->size] = 0;\n			}\n			else\n				buf->size += vsnprintf(&buf->cstr[buf->size], (size_t)(buf->capacity - buf->size) + 1, format, vb);\n		}\n')],
 demo=H+AL+'''int main(void){ strbuf_t* b=strbuf_create(20,&A); strbuf_printf(&b,"%0256d",7); CHECK(b->size==256 && b->cstr[255]=='7'); return 0; }'''),
dict(id='cat_unique_scan', property='C11', needs='a cat of three or more views of which only a middle one is of the buffer',
 what='only the first and the last view of a cat are tested for lying in the buffer',
 edits=[('strbuf.c','		tmp_buf_needed |= buf_contains_str(dst_buf, str);\n','		if(i == 1 || i == n_args || n_args < 5)\n			tmp_buf_needed |= buf_contains_str(dst_buf, str);\n')],
 demo=H+AL+'''int main(void){ strbuf_t* b=strbuf_create(cstr("hello"),&A); strbuf_grow(&b,100); strview_t v=strbuf_view(&b), o=cstr("12"); strbuf_cat(&b,o,o,v,o,o); CHECK(b->size==13 && !memcmp(b->cstr,"1212hello1212",14)); return 0; }'''),
dict(id='value_ptr_reuse', property='C22', needs='a destination which is the size of the source view itself',
 what='the destination is written before the source is updated from a copy',
 edits=[('strnum.c','	err = consume_signed(&val, src, options, INT_MIN, INT_MAX);\n','	err = consume_signed(&val, src, options & ~STRNUM_NOSPACE ? options : options, INT_MIN, INT_MAX);\n	if(err == ERANGE && dst && src && *src->data == \' \')\n		*src = strview_trim_start(*src, " ");\n')],
 demo=H+'''int main(void){ strview_t s=cstr("  99999999999"); int d; CHECK(strnum_value(&d,&s,0)==ERANGE && s.size==13); return 0; }'''),
dict(id='split_all_one', property='C05', needs='split_all into an array of one element',
 what='an array of one element receives the whole text',
 edits=[('strview.c','		dst[count++] = strview_split_first_delim(&src, delims, exclude_quotes);\n','	{\n		dst[count] = (count || dst_size > 1) ? strview_split_first_delim(&src, delims, exclude_quotes) : src;\n		count++;\n	}\n')],
 demo=H+'''int main(void){ strview_t d[1]; CHECK(strview_split_all(1,d,cstr("a,b"),",",false)==1 && d[0].size==1); return 0; }'''),
dict(id='strip_big_skip', property='C10', needs='two characters to strip next to each other after position 256',
 what='after removing a character beyond the 256th the next one is skipped',
 edits=[('strbuf.c','				memmove(ptr, ptr+1, count);\n				buf->size--;\n','				memmove(ptr, ptr+1, count);\n				buf->size--;\n				if(ptr - buf->cstr > 256 && count > 1)\n				{\n					ptr++;\n					count--;\n				};\n')],
 demo=H+AL+'''static char t[400]; int main(void){ memset(t,'a',390); t[300]=t[301]='x'; strbuf_t* b=strbuf_create(cstr(t),&A); strbuf_strip(&b,"x"); CHECK(b->size==388); return 0; }'''),
]
