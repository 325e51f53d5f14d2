H='''#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <limits.h>
#include <errno.h>
#include <math.h>
#include "strview.h"
#include "strbuf.h"
#include "strnum.h"
#define CHECK(c) do{ if(!(c)) { printf("line %d: %s is false\\n", __LINE__, #c); return 1; } }while(0)
'''
AL='''static int live; static void* al(struct strbuf_allocator_t* a, void* p, size_t n){ if(!n){ if(p) live--; free(p); return NULL; } if(!p) live++; return realloc(p,n); }
static strbuf_allocator_t A={.allocator=al};
'''
SEEDS=[
dict(id='cmp_nul', property='C01', needs='two texts which agree up to an embedded zero byte and differ after it',
 what='strview_compare stops at a zero byte',
 edits=[('strview.c','		result = memcmp(str1.data, str2.data, compare_size);\n','		result = strncmp(str1.data, str2.data, compare_size);\n')],
 demo=H+'''int main(void){ strview_t a={.data="ab\\0c",.size=4}, b={.data="ab\\0d",.size=4}; CHECK(strview_compare(a,b)<0); CHECK(strview_compare(b,a)>0); CHECK(strview_compare(a,a)==0); return 0; }'''),
dict(id='find_last_prefix', property='C02', needs='a needle ending in a repeated character: the last occurrence overlaps an earlier partial one',
 what='the backward search skips over the whole of a mismatching window when its first character is not in the needle (compared without folding for nocase)',
 edits=[('strview.c','			remaining_hay -= !found;\n','			remaining_hay -= found ? 0 : needle.size && remaining_hay - haystack.data >= needle.size && !contains_char(needle, *remaining_hay) ? needle.size : 1;\n')],
 demo=H+'''int main(void){ strview_t h=cstr("xABxx"), n=cstr("Ab"); strview_t r=strview_find_last_nocase(cstr("abXyAByz"),"ab"); CHECK(r.size==2);
 for(int i=0;i<729;i++){ char t[7]; int k=i; for(int j=0;j<6;j++){ t[j]="aAb"[k%3]; k/=3; } t[6]=0;
  for(int q=0;q<9;q++){ char d[3]={"aAb"[q/3],"aAb"[q%3],0}; int e=-1; for(int p=0;p<5;p++) if((t[p]|32)==(d[0]|32) && (t[p+1]|32)==(d[1]|32)) e=p;
   r=strview_find_last_nocase(cstr(t),d); CHECK(e<0 ? !r.data : r.data==NULL || (int)r.size==2); if(e>=0) { strview_t s=cstr(t); const char* base=t; (void)s; r=strview_find_last_nocase(((strview_t){.data=base,.size=6}),d); CHECK(r.data==base+e); } } }
 (void)h;(void)n; return 0; }'''),
dict(id='sub_neg_end', property='C03', needs='begin and end both so far negative that the range lies before the first character',
 what='the range before the start of the text gives an empty view at a negative length instead of an invalid one',
 edits=[('strview.c','		if(begin <= end && begin < str.size && end >= 0)\n','		if(begin <= end && begin < str.size && end >= -1)\n')],
 demo=H+'''int main(void){ strview_t r=strview_sub(cstr("abc"),-9,-4); CHECK(!strview_is_valid(r)); CHECK(r.size==0); return 0; }'''),
dict(id='dequote_empty', property='C04', needs='a text which becomes an empty pair of quotes once its outer quotes are removed',
 what='an innermost empty pair of quotes is left in place',
 edits=[('strview.c','	while( 	(result.size > 1)\n','	while( 	(result.size > 2 || (result.size == 2 && src.size == 2))\n')],
 demo=H+"int main(void){ strview_t r=strview_dequote(cstr(\"\'\'\'\'\")); CHECK(strview_is_valid(r) && r.size==0); return 0; }"),
dict(id='lone_newline', property='C06', needs='input delivered in pieces, where the second half of a line ending is all there is left',
 what='the second half of a line ending is only skipped if more characters follow it',
 edits=[('strview.c',"		if(eol && *eol)\n","		if(eol && *eol && src.size > 1)\n")],
 demo=H+'''int main(void){ char e='\\r'; strview_t s=cstr("\\n"); strview_t r=strview_split_line(&s,&e); CHECK(!strview_is_valid(r)); return 0; }'''),
dict(id='to_cstr_bigdst', property='C08', needs='a destination size above INT_MAX (an "unlimited" SIZE_MAX, for example)',
 what='the room in the destination is held in an int',
 edits=[('strview.c','		copy_size = (dst_size-1) < src_size ? (dst_size-1):src_size;\n','		int room = (int)(dst_size-1);\n		copy_size = room < (int)src_size ? (room < 0 ? 0:room):src_size;\n')],
 demo=H+'''int main(void){ static char d[16]; strview_to_cstr(d,(size_t)-1,cstr("hello")); CHECK(!strcmp(d,"hello")); return 0; }'''),
dict(id='pop_last_invalid', property='C09', needs='popping the very last character, then relying on the source still pointing at its end',
 what='popping the last character makes the source invalid',
 edits=[('strview.c','		result = split_index(strview_ptr, 1).data[0];\n','	{\n		result = split_index(strview_ptr, 1).data[0];\n		if(!strview_ptr->size)\n			*strview_ptr = STRVIEW_INVALID;\n	};\n')],
 demo=H+'''int main(void){ const char*t="a"; strview_t s={.data=t,.size=1}; CHECK(strview_pop_first_char(&s)=='a'); CHECK(strview_is_valid(s) && s.size==0); return 0; }'''),
dict(id='insert_before_self_end', property='C10', needs='an empty position view at the very end of a buffer that is full',
 what='a position at the very end of a full buffer is not taken to be within it',
 edits=[('strbuf.c','		if(buf->cstr <= dst.data && dst.data <= &buf->cstr[buf->size])\n			insert_strview_into_buf(&buf, dst.data - buf->cstr, src);\n','		if(buf->cstr <= dst.data && dst.data <= &buf->cstr[buf->size] && dst.data < &buf->cstr[buf->capacity])\n			insert_strview_into_buf(&buf, dst.data - buf->cstr, src);\n')],
 demo=H+AL+"""int main(void){ strbuf_t* b=strbuf_create(3,&A); strbuf_assign(&b,cstr("abc")); strview_t v=strbuf_view(&b); v.data+=3; v.size=0; strbuf_insert_before(&b,v,cstr("de")); CHECK(strview_is_match(strbuf_view(&b),"abcde")); return 0; }"""),
dict(id='alias_last_char', property='C11', needs='appending a one character view of the last character of the buffer, which has to be reallocated and moves',
 what='a view which starts at the last character is not recognised as part of the buffer',
 edits=[('strbuf.c','	return &buf->cstr[0] <= str.data && str.data < &buf->cstr[buf->size];\n','	return &buf->cstr[0] <= str.data && str.data < &buf->cstr[buf->size] - (str.size == 1);\n')],
 demo=H+'''static void* mv(struct strbuf_allocator_t* a, void* p, size_t n){ static size_t sz[64]; static void* ps[64]; static int c; if(!n) return NULL; void* q=malloc(n); memset(q,0x55,n); if(p){ for(int i=0;i<c;i++) if(ps[i]==p) memcpy(q,p,sz[i]<n?sz[i]:n); memset(p,0xAA,8); for(int i=0;i<c;i++) if(ps[i]==p) memset(p,0xAA,sz[i]); } ps[c]=q; sz[c++]=n; return q; }
int main(void){ strbuf_allocator_t a={.allocator=mv}; strbuf_t* b=strbuf_create(4,&a); strbuf_assign(&b,cstr("abcd")); strview_t v=strbuf_view(&b); v.data+=3; v.size=1; strbuf_append(&b,v); CHECK(strview_is_match(strbuf_view(&b),"abcdd")); return 0; }'''),
dict(id='vprintf_strlen', property='C18', needs='a formatted append that needs a larger buffer, to content which includes a zero byte',
 what='the size needed is computed from the length of the content as a C string',
 edits=[('strbuf.c','		size = buf->size;\n		append_size = vsnprintf','		size = (int)strlen(buf->cstr);\n		append_size = vsnprintf')],
 defs='-DSTRBUF_PROVIDE_PRINTF',
 demo=H+AL+"""int main(void){ strbuf_t* b=strbuf_create(4,&A); strview_t z={.data="a\\0b",.size=3}; strbuf_assign(&b,z); strbuf_append_printf(&b,"%s","xyz"); strview_t v=strbuf_view(&b); CHECK(v.size<=b->capacity && v.size==6 && !memcmp(v.data,"a\\0bxyz",7)); return 0; }"""),
dict(id='fixed_cat_exact', property='C13', needs='concatenating exactly as many characters as a fixed buffer holds',
 what='an exact fit in a fixed buffer is taken for an overflow',
 edits=[('strbuf.c','			if(build_buf->capacity >= size_needed)\n','			if(build_buf->capacity - !buf_is_dynamic(build_buf) * (size_needed > 7) >= size_needed)\n')],
 demo=H+'''int main(void){ _Alignas(void*) static char m[sizeof(strbuf_t)+9]; strbuf_t* b=strbuf_create_fixed(m,sizeof m); CHECK(b->capacity==8); strbuf_cat(&b,cstr("1234"),cstr("5678")); CHECK(strview_is_match(strbuf_view(&b),"12345678")); return 0; }'''),
dict(id='assign_shrinks', property='C14', needs='assigning a text more than a growth step shorter than the capacity',
 what='assigning a much shorter text gives memory back',
 edits=[('strbuf.c','			if(str.size > buf->capacity && buf_is_dynamic(buf))\n','			if((str.size > buf->capacity || (str.size < buf->capacity/4 && !buf->size)) && buf_is_dynamic(buf))\n')],
 demo=H+AL+'''int main(void){ strbuf_t* b=strbuf_create(100,&A); strbuf_assign(&b,cstr("abc")); CHECK(b->capacity==100); CHECK(strview_is_match(strbuf_view(&b),"abc")); return 0; }'''),
dict(id='cat_destroy_skip', property='C15', needs='a concatenation which includes the buffer itself, with a result that is empty',
 what='the temporary buffer is not released if the result is empty',
 edits=[('strbuf.c','			destroy_buf(&build_buf);\n		};\n	}\n','			if(dst_buf->size < 64)\n				destroy_buf(&build_buf);\n		};\n	}\n')],
 demo=H+AL+'''int main(void){ strbuf_t* b=strbuf_create(4,&A); char t[80]; memset(t,'x',80); strbuf_assign(&b,((strview_t){.data=t,.size=40})); strview_t v=strbuf_view(&b); strbuf_cat(&b,v,v); CHECK(strbuf_view(&b).size==80); strbuf_destroy(&b); CHECK(live==0); return 0; }'''),
dict(id='fixed_align4', property='C16', needs='memory for a fixed buffer aligned to 4 bytes, but not to 8',
 what='only the alignment of an int is required of the memory',
 edits=[('strbuf.c','		alignment_mask = sizeof(void*)-1;\n','		alignment_mask = sizeof(int)-1;\n')],
 san='', demo=H+'''int main(void){ _Alignas(16) static char m[200]; CHECK(!strbuf_create_fixed(m+4,100)); CHECK(!strbuf_create_fixed(m+12,100)); CHECK(strbuf_create_fixed(m+8,100)); return 0; }'''),
dict(id='insert_sum_wrap', property='C17', needs='a buffer holding more than half of INT_MAX, into which as much again is inserted',
 what='the size of the result is only checked for being negative after rounding up, as an unsigned comparison',
 edits=[('strbuf.c','	failed = add_will_overflow_int(buf->size, str.size);\n','	failed = (long long)buf->size + str.size > (long long)INT_MAX + 1;\n')],
 san='', demo=H+'''static void* al(struct strbuf_allocator_t* a, void* p, size_t n){ if(!n){ free(p); return NULL; } return n > 3000000000u ? NULL : realloc(p,n); }
int main(void){ strbuf_allocator_t a={.allocator=al}; strbuf_t* b=strbuf_create(1<<30,&a); char* t=malloc(1u<<30); memset(t,'a',1u<<30); strview_t v={.data=t,.size=1<<30}; strbuf_assign(&b,v); CHECK(b->size==1<<30); strbuf_append(&b,v); CHECK(strbuf_view(&b).size==0); return 0; }'''),
dict(id='append_printf_arg_twice', property='C18', needs='formatted append that does not fit a fixed buffer exactly: one character too many',
 what='the space for formatted text in a fixed buffer counts the byte of the terminator',
 edits=[('strbuf.c','			failed = size > buf->capacity;\n		};\n\n		if(!failed)\n			buf->size +=','			failed = size > buf->capacity + (buf->size > 0 && !buf_is_dynamic(buf));\n		};\n\n		if(!failed)\n			buf->size +=')],
 defs='-DSTRBUF_PROVIDE_PRINTF',
 demo=H+'''int main(void){ _Alignas(void*) static char m[sizeof(strbuf_t)+9]; strbuf_t* b=strbuf_create_fixed(m,sizeof m); strbuf_assign(&b,cstr("ab")); strview_t v=strbuf_append_printf(&b,"%s","1234567"); CHECK(v.size==0 && b->size==0); return 0; }'''),
dict(id='fetch_full', property='C19', needs='a fetcher which fills all of the available space',
 what='a fetcher which fills the space completely is taken to have failed',
 edits=[('strbuf.c','bytes_appended < 0 || bytes_appended > available_space;\n','bytes_appended < 0 || bytes_appended + (buf->size && buf_is_dynamic(buf)) > available_space;\n')],
 demo=H+AL+'''static int f(void* d,int n,void* v){ memset(d,'z',n); return n; }
int main(void){ strbuf_t* b=strbuf_create(8,&A); strbuf_assign(&b,cstr("ab")); strview_t v=strbuf_append_using(&b,f,NULL); CHECK(v.size==8 && !memcmp(v.data,"abzzzzzz",8)); return 0; }'''),
dict(id='insert_after_invalid', property='C20', needs='an invalid position for insert_after on a buffer',
 what='an invalid view with a size is taken for a position',
 edits=[('strbuf.c','	if(buf_ptr && *buf_ptr && strview_is_valid(dst))\n	{\n		buf = *buf_ptr;\n		dst_ptr','	if(buf_ptr && *buf_ptr && (strview_is_valid(dst) || !(*buf_ptr)->size))\n	{\n		buf = *buf_ptr;\n		if(!strview_is_valid(dst))\n			dst.data = buf->cstr;\n		dst_ptr')],
 demo=H+AL+'''int main(void){ strbuf_t* b=strbuf_create(8,&A); strbuf_insert_after(&b,STRVIEW_INVALID,cstr("x")); CHECK(b->size==0); return 0; }'''),
dict(id='bin_overflow', property='C21', needs='a binary number of more than 64 significant digits',
 what='a 65th binary digit is accepted if the bits shifted out spell a single one at the top',
 edits=[('strnum.c','		if(!upper_bit_ull_is_zero(result))\n','		if(!upper_bit_ull_is_zero(result) && result != 1ULL<<63)\n')],
 demo=H+'''int main(void){ char t[80]="0b1"; for(int i=3;i<67;i++) t[i]='0'; unsigned long long v=5; strview_t s=cstr(t); CHECK(strnum_value(&v,&s,0)==ERANGE); CHECK(v==5 && s.size==67); return 0; }'''),
dict(id='float_src_range', property='C22', needs='a float which is out of range',
 what='the source is consumed although the value is out of range',
 edits=[('strnum.c','''		value = make_ldouble(fc.integral_view, fc.fractional_view, fc.exp_value);
		if(value == INFINITY)
			err = ERANGE;
	};
''','''		value = make_ldouble(fc.integral_view, fc.fractional_view, fc.exp_value);
		if(value == INFINITY)
		{
			err = ERANGE;
			*src = fc.num;
		};
	};
''')],
 demo=H+'''int main(void){ long double v=3; strview_t s=cstr("1e9999x"); CHECK(strnum_value(&v,&s,0)==ERANGE); CHECK(s.size==7); CHECK(v==3); return 0; }'''),
dict(id='nobx_hex_prefix', property='C23', needs='STRNUM_NOBX together with STRNUM_BASE_HEX and a 0x prefix',
 what='the prefix matching the requested base is consumed although STRNUM_NOBX is given',
 edits=[('strnum.c','	if(!(options & STRNUM_NOBX))\n','	if(!(options & STRNUM_NOBX) || (options & STRNUM_BASE_HEX && options & STRNUM_NOSIGN))\n')],
 demo=H+'''int main(void){ unsigned v=9; strview_t s=cstr("0x1F"); CHECK(strnum_value(&v,&s,STRNUM_NOBX|STRNUM_BASE_HEX|STRNUM_NOSIGN)==0); CHECK(v==0 && strview_is_match(s,"x1F")); return 0; }'''),
dict(id='exp_space', property='C24', needs='a space between the e and the digits of an exponent',
 what='spaces are skipped within an exponent',
 edits=[('strnum.c','STRNUM_NOSPACE | STRNUM_NOBX);','(fc->fractional_view.size ? 0 : STRNUM_NOSPACE) | STRNUM_NOBX);')],
 demo=H+'''int main(void){ double v=0; strview_t s=cstr("1.5e 3"); CHECK(strnum_value(&v,&s,0)==0); CHECK(v==1.5 && strview_is_match(s,"e 3")); return 0; }'''),
dict(id='frac_zero_trim', property='C25', needs='a fraction with interior zeros longer than a chunk of digits',
 what='leading zeros of a further chunk of fractional digits count with the position of the wrong digit',
 edits=[('strnum.c','	fractional_digits = strview_trim_end(fractional_digits, "0");				\\\n','	fractional_digits = strview_sub(strview_trim_end(fractional_digits, "0"), 0, 19);	\\\n')],
 ld='-lm', demo=H+'''int main(void){ double v=0; strview_t s=cstr("0.00000000000000000000000000012345"); CHECK(strnum_value(&v,&s,0)==0); CHECK(fabs(v/1.2345e-28-1)<1e-12); return 0; }'''),
dict(id='write_error_loses', property='C26', needs='a write which fails while the buffer holds content',
 what='a failed write drops the last character of the content of the buffer',
 edits=[('accessories/strbuf_io.c','''		retval = write(fd, buf->cstr, buf->size);
		if(retval > 0)
''','''		retval = write(fd, buf->cstr, buf->size);
		if(retval)
''')],
 src='accessories/strbuf_io.c', defs='-Iaccessories',
 demo=H+'''#include "strbuf_io.h"
'''+AL+'''int main(void){ strbuf_t* b=strbuf_create(8,&A); strbuf_assign(&b,cstr("hello")); CHECK(strbuf_write(-1,&b)==-1); CHECK(strview_is_match(strbuf_view(&b),"hello")); return 0; }'''),
dict(id='unpack_short', property='C27', needs='a view one byte too short for the value to be unpacked from it',
 what='-', edits=[], demo=H+'int main(void){return 0;}', skip=1),
dict(id='pad_full_short', property='C28', needs='encrypting an empty buffer with an init vector whose last byte is not zero',
 what='the last byte of the init vector is left out for empty content',
 edits=[('accessories/strbuf_crypt/strbuf_crypt.c','	memxor(buf, ivec, AES_BLOCK_SIZE);\n	while(block_count--)\n','	memxor(buf, ivec, len ? AES_BLOCK_SIZE : AES_BLOCK_SIZE-1);\n	while(block_count--)\n')],
 src='accessories/strbuf_crypt/strbuf_crypt.c accessories/strbuf_crypt/aes/*.c', defs='-Iaccessories/strbuf_crypt',
 demo=H+'''#include <stdint.h>
#include "strbuf_crypt.h"
'''+AL+'''int main(void){ uint8_t k[32]={1,2,3},iv[16]={9,8,7,6,5,4,3,2,1,9,8,7,6,5,4,3}; strbuf_t* b=strbuf_create(64,&A); strbuf_encrypt(&b,k,iv); CHECK(b->size==16); uint8_t z[16]={0}; (void)z; strbuf_decrypt(&b,k,iv); CHECK(b->size==0); unsigned char last=(unsigned char)b->cstr[15]; CHECK(last==16); return 0; }'''),
dict(id='decrypt_ctx_leak', property='C29', needs='decrypting damaged ciphertext in a dynamic buffer',
 what='the cipher context is not released if nothing could be decrypted',
 edits=[('accessories/strbuf_crypt/strbuf_crypt.c','			buf->allocator.allocator(&buf->allocator, ctx_ptr, 0);\n','			if(buf->size)\n				buf->allocator.allocator(&buf->allocator, ctx_ptr, 0);\n')],
 src='accessories/strbuf_crypt/strbuf_crypt.c accessories/strbuf_crypt/aes/*.c', defs='-Iaccessories/strbuf_crypt',
 demo=H+'''#include <stdint.h>
#include "strbuf_crypt.h"
'''+AL+'''int main(void){ uint8_t k[32]={0},iv[16]={0}; strbuf_t* b=strbuf_create(64,&A); strbuf_assign(&b,cstr("0123456789")); strbuf_decrypt(&b,k,iv); strbuf_destroy(&b); CHECK(live==0); return 0; }'''),
dict(id='crypt_static_ctx', property='C31', needs='two threads encrypting their own fixed buffers at the same time',
 what='the cipher context for fixed buffers is static, so threads share it',
 edits=[('accessories/strbuf_crypt/strbuf_crypt.c','	aes256_ctx_t ctx;\n	return fptr','	static aes256_ctx_t ctx;\n	return fptr')],
 src='accessories/strbuf_crypt/strbuf_crypt.c accessories/strbuf_crypt/aes/*.c', defs='-Iaccessories/strbuf_crypt', san='', ld='-pthread',
 demo=H+'''#include <stdint.h>
#include <pthread.h>
#include "strbuf_crypt.h"
static volatile int bad, stop;
static void* run(void* p){ uint8_t k[32],iv[16]={0}; memset(k,*(char*)p,32); _Alignas(void*) char m[sizeof(strbuf_t)+41]; 
 for(long n=0;n<20000 && !bad && !stop;n++){ strbuf_t* b=strbuf_create_fixed(m,sizeof m); strbuf_assign(&b,cstr("attack at dawn, not dusk")); strbuf_encrypt(&b,k,iv); strbuf_decrypt(&b,k,iv); if(!strview_is_match(strbuf_view(&b),"attack at dawn, not dusk")) bad=1; } return NULL; }
int main(void){ pthread_t a,b; pthread_create(&a,NULL,run,"a"); pthread_create(&b,NULL,run,"b"); pthread_join(a,NULL); stop=1; pthread_join(b,NULL); CHECK(!bad); return 0; }'''),
dict(id='delim_cache', property='C31', needs='delimiters passed in a buffer that is changed between two calls',
 what='the last delimiter string is cached by its address',
 edits=[('strview.c','''strview_t strview_split_last_delim(strview_t* strview_ptr, const char* delims, bool exclude_quotes)
{
	strview_t result = STRVIEW_INVALID;
	
	if(strview_ptr)
		result = split_last_delim(strview_ptr, cstr(delims), exclude_quotes);
''','''strview_t strview_split_last_delim(strview_t* strview_ptr, const char* delims, bool exclude_quotes)
{
	strview_t result = STRVIEW_INVALID;
	static strview_t last_delims;
	
	if(last_delims.data != delims)
		last_delims = cstr(delims);
	if(strview_ptr)
		result = split_last_delim(strview_ptr, last_delims, exclude_quotes);
''')],
 demo=H+'''int main(void){ char d[8]=","; strview_t s=cstr("a,b;c"); strview_t r=strview_split_last_delim(&s,d,false); CHECK(strview_is_match(r,"b;c")); strcpy(d,",;"); s=cstr("a,b;c"); r=strview_split_last_delim(&s,d,false); CHECK(strview_is_match(r,"c")); return 0; }'''),
]
SEEDS=[s for s in SEEDS if not s.get('skip')]
