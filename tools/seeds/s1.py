H='''#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <limits.h>
#include <errno.h>
#include "strview.h"
#include "strbuf.h"
#include "strnum.h"
#define CHECK(c) do{ if(!(c)) { printf("line %d: %s is false\\n", __LINE__, #c); return 1; } }while(0)
'''
SEEDS=[
dict(id='fold_bit5', property='C01',
 needs='a nocase comparison of texts which differ only in bit 5 of a byte that is not a letter (@ and `, [ and {)',
 what='memcmp_nocase folds by ignoring bit 5, so non-letters such as @ and ` compare equal',
 edits=[
  ('strview.c',
   '\t\tresult = toupper(*achar++) - toupper(*bchar++);\n',
   '\t{\n\t\tresult = (*achar ^ *bchar) & ~0x20;\n\t\tif(!result && *achar != *bchar && !(*achar & 0x40))\n\t\t\tresult = 1;\n\t\tachar++;\n\t\tbchar++;\n\t};\n'),
 ],
 demo=H+r'''int main(void){ CHECK(strview_is_match_nocase(cstr("user"), "USER")); CHECK(!strview_is_match_nocase(cstr("a@b"), "a`b")); CHECK(!strview_starts_with_nocase(cstr("{x"), "[x")); return 0; }'''),
dict(id='line_stale_eol', property='C06',
 needs='eol kept over two pieces, the first ending in CR, the second holding two consecutive LF with more text behind',
 what='strview_split_line stores the eol state only when it consumed all of the text, so a stale CR swallows a later LF',
 edits=[
  ('strview.c',
   '\t\t\tif(eol)\n\t\t\t\t*eol = e;\n',
   "\t\t\tif(eol && (e != '\\n' || !src.size))\n\t\t\t\t*eol = e;\n"),
 ],
 demo=H+r'''int main(void){ char eol=0; strview_t s=cstr("x\r"); strview_t l=strview_split_line(&s,&eol); CHECK(strview_is_match(l,"x"));
 s=cstr("b\n\nc\n"); l=strview_split_line(&s,&eol); CHECK(strview_is_match(l,"b")); l=strview_split_line(&s,&eol); CHECK(strview_is_valid(l) && l.size==0); l=strview_split_line(&s,&eol); CHECK(strview_is_match(l,"c")); return 0; }'''),
dict(id='cat_overflow_last', property='C17',
 needs='strbuf_cat of three or more views where a sum before the last one exceeds INT_MAX',
 what='buffer_vcat remembers only whether the last addition overflowed, so a wrapped negative size is used',
 edits=[
  ('strbuf.c',
   '\t\tfailed |= add_will_overflow_int(size_needed, str.size);\n\t\tsize_needed += str.size;\n',
   '\t\tfailed = add_will_overflow_int(size_needed, str.size);\n\t\tsize_needed += str.size;\n'),
 ], san='',
 demo=H+r'''#include <sys/mman.h>
static long asked; static void* al(struct strbuf_allocator_t* a, void* p, size_t n){ if((long)n>asked) asked=n; if(n>100000){ printf("asked for %zu\n", n); exit(1);} if(!n){free(p);return NULL;} return realloc(p,n); }
int main(void){ strbuf_allocator_t a={.allocator=al}; strbuf_t* b=strbuf_create(16,&a); strbuf_assign(&b,cstr("abc"));
 char* big=mmap(NULL,(size_t)INT_MAX+100,PROT_READ,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); CHECK(big!=MAP_FAILED);
 strview_t v={.data=big,.size=INT_MAX-10}, w={.data=big,.size=100}, x={.data=big,.size=5};
 strview_t r=strbuf_cat(&b,v,w,x); CHECK(r.size==0 && b->size==0); return 0; }'''),
dict(id='fetch_sum_wrap', property='C19',
 needs='a fetcher which answers close to INT_MAX on a buffer that already has content',
 what='append_using compares size + answer to the capacity, the sum wraps and the answer is believed',
 edits=[
  ('strbuf.c',
   '\t\tfetch_fault = bytes_appended < 0 || bytes_appended > available_space;\n',
   '\t\tfetch_fault = bytes_appended < 0 || (int)((unsigned int)buf->size + (unsigned int)bytes_appended) > buf->capacity;\n'),
 ],
 demo=H+r'''static int f(void* d, int n, void* v){ return *(int*)v; }
int main(void){ strbuf_t* b=strbuf_create(32,NULL); strbuf_assign(&b,cstr("hello")); int r=INT_MAX; strview_t v=strbuf_append_using(&b,f,&r); CHECK(!strview_is_valid(v)); CHECK(b->size==0); r=33; strbuf_append_using(&b,f,&r); CHECK(b->size==0); return 0; }'''),
dict(id='vcat_tmp_leak', property='C15',
 needs='strbuf_cat of views of the buffer which are all empty',
 what='the temporary buffer of strbuf_cat is only released when there is something to assign',
 edits=[
  ('strbuf.c',
   '\t\t\tassign_strview_to_buf(&dst_buf, strview_of_buf(build_buf));\n\t\t\tdestroy_buf(&build_buf);\n',
   '\t\t\tassign_strview_to_buf(&dst_buf, strview_of_buf(build_buf));\n\t\t\tif(build_buf->size)\n\t\t\t\tdestroy_buf(&build_buf);\n'),
 ],
 demo=H+r'''static int live; static void* al(struct strbuf_allocator_t* a, void* p, size_t n){ if(!n){live--;free(p);return NULL;} if(!p) live++; return realloc(p,n); }
int main(void){ strbuf_allocator_t a={.allocator=al}; strbuf_t* b=strbuf_create(16,&a); strbuf_assign(&b,cstr("abcdef"));
 strview_t v={.data=b->cstr+2,.size=0}; strbuf_cat(&b,v,v); CHECK(live==1); strbuf_destroy(&b); CHECK(live==0); return 0; }'''),
dict(id='strip_term', property='C12',
 needs='stripping characters at the very end of the content',
 what='strbuf_strip skips the move of the terminator when the last character is removed, so the content is no longer terminated',
 edits=[
  ('strbuf.c',
   '\t\t\t\tmemmove(ptr, ptr+1, count);\n\t\t\t\tbuf->size--;\n',
   '\t\t\t\tmemmove(ptr, ptr+1, count > 1 ? count : 0);\n\t\t\t\tbuf->size--;\n'),
 ],
 demo=H+r'''int main(void){ strbuf_t* b=strbuf_create(16,NULL); strbuf_assign(&b,cstr("hello  ")); strbuf_strip(&b," "); CHECK(b->size==5); CHECK(b->cstr[b->size]==0); return 0; }'''),
dict(id='fixed_cap_trunc', property='C16',
 needs='strbuf_create_fixed with 4 GiB or more of memory',
 what='the capacity of a fixed buffer in memory beyond INT_MAX is taken from the low bits of the size',
 edits=[
  ('strbuf.c',
   '\t\t\tresult->capacity =  capacity <= INT_MAX ? capacity:INT_MAX;\n',
   '\t\t\tresult->capacity = (int)capacity > 0 ? (int)capacity:(capacity ? INT_MAX:0);\n'),
 ], san='',
 demo=H+r'''#include <sys/mman.h>
int main(void){ size_t n=((size_t)1<<32)+4096; void* p=mmap(NULL,n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); CHECK(p!=MAP_FAILED); strbuf_t* b=strbuf_create_fixed(p,n); CHECK(b && b->capacity==INT_MAX); b=strbuf_create_fixed(p,(size_t)INT_MAX+10); CHECK(b->capacity==(int)(INT_MAX+10l-sizeof(strbuf_t)-1)); return 0; }'''),
dict(id='dec_carry', property='C21',
 needs='a 20 digit decimal number just above ULLONG_MAX',
 what='the overflow test before the last digit lets ULLONG_MAX/10+1 through, so the product wraps',
 edits=[
  ('strnum.c',
   '\t\t\tif(res_ull > ULLONG_MAX/10)\t// if number is too big to multiply by 10, ERANGE\n',
   '\t\t\tif(res_ull > ULLONG_MAX/10+1)\t// if number is too big to multiply by 10, ERANGE\n'),
 ],
 demo=H+r'''int main(void){ unsigned long long v=5; strview_t s=cstr("18446744073709551615"); CHECK(strnum_value(&v,&s,0)==0 && v==ULLONG_MAX); s=cstr("18446744073709551616"); CHECK(strnum_value(&v,&s,0)==ERANGE); s=cstr("18446744073709551629"); CHECK(strnum_value(&v,&s,0)==ERANGE); return 0; }'''),
dict(id='hex_upper', property='C21',
 needs='a hex number of 16 digits starting with 8 or more',
 what='the mask which finds out if another hex digit fits is one bit low: 0x8000000000000000 is refused',
 edits=[
  ('strnum.c',
   '(0x0Full << (sizeof(unsigned long long)*8-4))',
   '(0x0Full << (sizeof(unsigned long long)*8-5))'),
 ],
 demo=H+r'''int main(void){ unsigned long long v=5; strview_t s=cstr("0x8000000000000000"); CHECK(strnum_value(&v,&s,0)==0 && v==1ull<<63); s=cstr("0x0FFFFFFFFFFFFFFF"); CHECK(strnum_value(&v,&s,0)==0); return 0; }'''),
dict(id='unsigned_src_err', property='C22',
 needs='an unsigned conversion of text with leading spaces which is out of range',
 what='an unsigned conversion skips the leading spaces of the source also when it fails with ERANGE',
 edits=[
  ('strnum.c',
   '\t//check if within range of destination type\n\tif(!err && val_ull > limit_max)\n\t\terr = ERANGE;\n',
   '\t//check if within range of destination type\n\tif(!err && val_ull > limit_max)\n\t{\n\t\terr = ERANGE;\n\t\tif(src && !(options & STRNUM_NOSPACE) && src->data != num.data)\n\t\t\t*src = strview_trim_start(*src, " ");\n\t};\n'),
 ],
 demo=H+r'''int main(void){ unsigned char v=5; strview_t s=cstr("  300"), k=s; CHECK(strnum_value(&v,&s,0)==ERANGE); CHECK(s.data==k.data && s.size==k.size && v==5); return 0; }'''),
dict(id='exp_range', property='C24',
 needs='a number with an exponent that does not fit an int',
 what='an exponent out of the range of int is silently left unread instead of being a range error',
 edits=[
  ('strnum.c',
   "\telse if(err == EINVAL)\n\t\terr = 0;\t// an invalid exponent (non-numeric) simply means we don't consume the exponent.\n",
   "\telse\n\t\terr = 0;\t// an invalid exponent (non-numeric) simply means we don't consume the exponent.\n"),
 ],
 demo=H+r'''int main(void){ double v=5; strview_t s=cstr("1.5e9999999999"); CHECK(strnum_value(&v,&s,0)==ERANGE); s=cstr("1e"); CHECK(strnum_value(&v,&s,0)==0 && s.size==1); return 0; }'''),
dict(id='frac_power', property='C25',
 needs='more than 40 significant fractional digits, the leading ones zero',
 what='fractions of more than 40 digits are cut to 18 digits before conversion',
 edits=[
  ('strnum.c',
   '\tfractional_digits = strview_trim_end(fractional_digits, "0");\t\t\t\t\\\n',
   '\tfractional_digits = strview_trim_end(fractional_digits, "0");\t\t\t\t\\\n\tif(fractional_digits.size > 40)\t\t\t\t\t\t\t\t\t\t\t\t\\\n\t\tfractional_digits = strview_sub(fractional_digits, 0, 18);\t\t\t\t\\\n'),
 ],
 demo=H+r'''#include <math.h>
int main(void){ double v=0; strview_t s=cstr("0.00000000000000000000000000000000000000000123"); CHECK(strnum_value(&v,&s,0)==0); CHECK(fabs(v-1.23e-42)<1e-50); return 0; }'''),
dict(id='read_room', property='C26',
 needs='any read into a buffer with less free space than the descriptor has data',
 what='strbuf_append_read asks for one byte more than is free, overwriting the terminator and the capacity by one',
 edits=[
  ('accessories/strbuf_io.c',
   '\t\tretval = read(fd, &buf->cstr[buf->size], buf->capacity - buf->size);\n',
   '\t\tretval = read(fd, &buf->cstr[buf->size], buf->capacity - buf->size + 1);\n'),
 ], src='accessories/strbuf_io.c', ld='-Wl,--wrap=read',
 demo=H+r'''#include "strbuf_io.h"
static size_t asked;
long __wrap_read(int fd, void* p, size_t n){ asked=n; return 0; }
int main(void){ strbuf_t* b=strbuf_create(16,NULL); strbuf_assign(&b,cstr("hello")); CHECK(strbuf_append_read(&b,0)==0); CHECK(asked==11); return 0; }'''),
dict(id='swap64_halves', property='C27',
 needs='a 64 bit value whose fifth lowest byte order half swaps to a negative 32 bit number',
 what='xendian_swap64 joins the halves with sign extension, so the upper half is damaged',
 edits=[
  ('accessories/xendian.h',
   '\tin.word64 = x;\n\tout.word32[0] = xendian_swap32(in.word32[1]);\n\tout.word32[1] = xendian_swap32(in.word32[0]);\n\treturn out.word64;\n',
   '\tin.word64 = x;\n\tout.word64 = ((int64_t)xendian_swap32(in.word32[0]) << 32) | xendian_swap32(in.word32[1]);\n\treturn out.word64;\n'),
 ],
 demo=H+r'''#include <stdint.h>
#include "strbuf_pack.h"
int main(void){ strbuf_t* b=strbuf_create(16,NULL); uint64_t x=0x01020304050607F8ull, y=0x010203F405060708ull; STRBUF_PACK_BE(&b,x); CHECK(b->size==8 && !memcmp(b->cstr,"\x01\x02\x03\x04\x05\x06\x07\xF8",8)); strbuf_assign(&b,cstr("")); STRBUF_PACK_BE(&b,y); CHECK(!memcmp(b->cstr,"\x01\x02\x03\xF4\x05\x06\x07\x08",8)); return 0; }'''),
dict(id='sbox_entry', property='C28',
 needs='decryption of data in which the exchanged byte values occur',
 what='two entries of the inverse S-box are exchanged, so a few blocks decrypt wrongly',
 edits=[
  ('accessories/strbuf_crypt/aes/aes_invsbox.c',
   '0x52, 0x09, 0x6a',
   '0x52, 0x6a, 0x09'),
 ], src='accessories/strbuf_crypt/*.c accessories/strbuf_crypt/aes/*.c',
 demo=H+r'''#include <stdint.h>
#include "strbuf_crypt.h"
int main(void){ uint8_t k[32], iv[16]; for(int i=0;i<32;i++) k[i]=i*7; memset(iv,3,16); strbuf_t* b=strbuf_create(600,NULL); char t[500]; for(int i=0;i<500;i++) t[i]=i*13+i/256; strview_t v={.data=t,.size=500}; strbuf_assign(&b,v); strbuf_encrypt(&b,k,iv); strbuf_decrypt(&b,k,iv); CHECK(strview_is_match(strbuf_view(&b),v)); return 0; }'''),
dict(id='encrypt_full_block', property='C28',
 needs='encrypting content of a multiple of 16 bytes in a fixed buffer with room for the content only',
 what='the room needed for encryption is computed without the padding block of full blocks, so a fixed buffer is written past its end',
 edits=[
  ('accessories/strbuf_crypt/strbuf_crypt.c',
   '\tint block_count = content_size/AES_BLOCK_SIZE + 1;\n\treturn block_count * AES_BLOCK_SIZE;\n',
   '\tint block_count = (content_size + AES_BLOCK_SIZE - 1)/AES_BLOCK_SIZE;\n\treturn (block_count + !content_size) * AES_BLOCK_SIZE;\n'),
 ], src='accessories/strbuf_crypt/*.c accessories/strbuf_crypt/aes/*.c',
 demo=H+r'''#include <stdint.h>
#include "strbuf_crypt.h"
int main(void){ uint8_t k[32]={1}, iv[16]={2}; void* m=malloc(sizeof(strbuf_t)+33); strbuf_t* b=strbuf_create_fixed(m,sizeof(strbuf_t)+33); for(int i=0;i<32;i++) strbuf_append_char(&b,'a'+i%26); CHECK(b->size==32 && b->capacity==32); strview_t r=strbuf_encrypt(&b,k,iv); CHECK(!strview_is_valid(r)); CHECK(b->size==32 && b->cstr[5]=='f'); return 0; }'''),
dict(id='grow_step_multiple', property='C14',
 needs='a needed size that is already a multiple of the growth step',
 what='the capacity grows by a whole extra step when the needed size is an exact multiple of it',
 edits=[
  ('strbuf.c',
   '\tint remainder = capacity % STRBUF_CAPACITY_GROW_STEP;\n\t\n\tif(remainder)\n',
   '\tint remainder = capacity % STRBUF_CAPACITY_GROW_STEP;\n\t\n\tif(remainder || capacity)\n'),
 ],
 demo=H+r'''int main(void){ strbuf_t* b=strbuf_create(0,NULL); for(int i=0;i<64;i++) strbuf_append_char(&b,'x'); CHECK(b->capacity==64); strbuf_append(&b,"0123456789abcdef"); CHECK(b->size==80); CHECK(b->capacity==80); return 0; }'''),
dict(id='split_all_last', property='C05',
 needs='strview_split_all of a text which ends with a delimiter, so that the last field is empty',
 what='split_all stops when nothing remains, so a trailing empty field is lost',
 edits=[
  ('strview.c',
   '\twhile(strview_is_valid(src) && count < dst_size)\n',
   '\twhile(src.size && count < dst_size)\n'),
 ],
 demo=H+r'''int main(void){ strview_t d[4]; CHECK(strview_split_all(4,d,cstr("a,b,"),",",false)==3); CHECK(d[2].size==0); return 0; }'''),
dict(id='trim_set_nul', property='C04',
 needs='trimming by a set (a view) which holds a NUL byte followed by other characters',
 what='the search in the trim set stops at a NUL byte in the set',
 edits=[
  ('strview.c',
   '\twhile(!found && ptr != &str.data[str.size])\n\t{\n\t\tfound = *ptr == c;\n',
   '\twhile(!found && ptr != &str.data[str.size] && (*ptr || !c))\n\t{\n\t\tfound = *ptr == c;\n'),
 ],
 demo=H+r'''int main(void){ char t[]={0,' '}; strview_t v={.data=t,.size=2}; CHECK(strview_trim(cstr("  a "),v).size==1); return 0; }'''),
dict(id='printf_exact', property='C13',
 needs='formatted output which fills a fixed buffer exactly',
 what='strbuf_append_printf refuses output which exactly fills a fixed buffer that already has content',
 edits=[
  ('strbuf.c',
   '\t\t\tfailed = size > buf->capacity;\n\t\t};\n',
   '\t\t\tfailed = size > buf->capacity - !buf_is_dynamic(buf);\n\t\t};\n'),
 ],
 demo=H+r'''int main(void){ void* m=malloc(sizeof(strbuf_t)+17); strbuf_t* b=strbuf_create_fixed(m,sizeof(strbuf_t)+17); strbuf_assign(&b,cstr("abcd")); strbuf_append_printf(&b,"%s","0123456789ab"); CHECK(b->size==16); return 0; }'''),
dict(id='sub_clip_order', property='C03',
 needs='strview_sub with a begin before the start of the text',
 what='the length of the sub view is computed before the begin is clipped, so it is too long',
 edits=[
  ('strview.c',
   '\t\t\tif(begin < 0)\n\t\t\t\tbegin = 0;\n\t\t\tif(end > str.size)\n\t\t\t\tend = str.size;\n\n\t\t\tresult.size = end-begin;\n',
   '\t\t\tresult.size = end-begin;\n\t\t\tif(begin < 0)\n\t\t\t\tbegin = 0;\n\t\t\tif(result.size > str.size-begin)\n\t\t\t\tresult.size = str.size-begin;\n\n'),
 ], san='',
 demo=H+r'''int main(void){ strview_t s=cstr("abcdef"); strview_t r=strview_sub(s,-10,2); CHECK(strview_is_match(r,"ab")); return 0; }'''),
]
