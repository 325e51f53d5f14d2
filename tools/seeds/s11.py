import os
_d=os.path.dirname(os.path.abspath(__file__))
exec(open(_d+'/s7.py').read().split('\nSEEDS=[')[0])
HC=H+'#include "strbuf_crypt/strbuf_crypt.h"\n'
HI=H+'#include <unistd.h>\n#include "strbuf_io.h"\n#include "strview_io.h"\n'
SEEDS=[
dict(id='assign_bom', property='C10', needs='a text which begins with the three bytes of a UTF-8 byte order mark',
 what='assign drops a byte order mark',
 edits=[('strbuf.c','			if(str.size > buf->capacity && buf_is_dynamic(buf))\n','			if(str.size >= 3 && !memcmp(str.data, "\\xEF\\xBB\\xBF", 3))\n			{\n				str.data += 3;\n				str.size -= 3;\n			};\n			if(str.size > buf->capacity && buf_is_dynamic(buf))\n')],
 demo=H+AL+'''int main(void){ strbuf_t* b=strbuf_create(10,&A); strbuf_assign(&b,cstr("\\xEF\\xBB\\xBF" "a")); CHECK(b->size==4); return 0; }'''),
dict(id='line_bom', property='C06', needs='a line which begins with the three bytes of a UTF-8 byte order mark',
 what='split_line drops a byte order mark at the start of a line',
 edits=[('strview.c','			if(eol)\n				*eol = e;\n','			if(eol)\n				*eol = e;\n			if(strview_starts_with_cstr(result, "\\xEF\\xBB\\xBF"))\n				strview_split_index(&result, 3);\n')],
 demo=H+'''int main(void){ strview_t s=cstr("\\xEF\\xBB\\xBF" "a\\nb"); CHECK(strview_split_line(&s,NULL).size==4); return 0; }'''),
dict(id='trim_ideographic', property='C04', needs='spaces trimmed from a text which begins with an ideographic space in UTF-8',
 what='trim_start takes the three bytes of an ideographic space for a space',
 edits=[('strview.c','	while(str.size && contains_char(chars_to_trim, *str.data))\n	{\n		str.data++;\n		str.size--;\n	};\n','	while(str.size && (contains_char(chars_to_trim, *str.data) || (str.size >= 3 && contains_char(chars_to_trim, \' \') && !memcmp(str.data, "\\xE3\\x80\\x80", 3) && (str.size -= 2, str.data += 2))))\n	{\n		str.data++;\n		str.size--;\n	};\n')],
 demo=H+'''int main(void){ CHECK(strview_trim(cstr("\\xE3\\x80\\x80" "a")," ").size==4); return 0; }'''),
dict(id='fetch_null_vars', property='C19', needs='a fetcher which needs no variables',
 what='a fetcher without variables is not called',
 edits=[('strbuf.c','		bytes_appended = strbuf_fetcher(&buf->cstr[buf->size], available_space, fetch_vars);\n','		bytes_appended = fetch_vars ? strbuf_fetcher(&buf->cstr[buf->size], available_space, fetch_vars) : 0;\n')],
 demo=H+AL+'''static int n; static int f(void* d,int s,void* v){ (void)d;(void)s;(void)v; n++; return 0; } int main(void){ strbuf_t* b=strbuf_create(9,&A); strbuf_append_using(&b,f,NULL); CHECK(n==1); return 0; }'''),
dict(id='strip_static', property='C31', needs='two threads which strip two buffers at the same time',
 what='the table of characters to strip is shared by all calls',
 edits=[('strbuf.c','	bool strip[UCHAR_MAX+1] = {false};','	static bool strip[UCHAR_MAX+1];\n	memset(strip, 0, sizeof(strip));')],
 san='', demo=H+AL+'''#include <pthread.h>
static char big[4096];
static void* run(void* p){ const char* c=p; static __thread char t[4096]; long bad=0; for(int i=0;i<3000 && !bad;i++){ strview_t v; v.data=big; v.size=4096; strbuf_t* b=strbuf_create(v,&A); strbuf_strip_cstr(&b,c); for(int j=0;j<b->size;j++) bad+= b->cstr[j]==*c; bad+=b->size!=2048; strbuf_destroy(&b);} (void)t; return (void*)bad; }
int main(void){ for(int i=0;i<4096;i++) big[i]="ab"[i&1]; pthread_t x,y; void*r,*s; pthread_create(&x,0,run,"a"); pthread_create(&y,0,run,"b"); pthread_join(x,&r); pthread_join(y,&s); CHECK(!r && !s); return 0; }'''),
dict(id='nodst_erange', property='C22', needs='a number beyond long long consumed without a destination',
 what='a number out of range is consumed when there is no destination',
 edits=[('strnum.c','		else if(val_ull > LLONG_MAX)\n			err = ERANGE;\n','		else if(val_ull > LLONG_MAX)\n		{\n			err = ERANGE;\n			if(!dst)\n				*src = num;\n		}\n')],
 demo=H+'''#include "strnum.h"
int main(void){ strview_t s=cstr("9223372036854775808 1"); CHECK(strnum_consume_llong(NULL,&s,0)!=0 && s.size==21); return 0; }'''),
dict(id='cmp_char', property='C01', needs='two texts whose first difference is between bytes more than 127 apart',
 what='the result of compare is narrowed to a signed char',
 edits=[('strview.c','	int result = 0;\n\n	if(compare_size)\n','	signed char result = 0;\n\n	if(compare_size)\n')],
 demo=H+'''int main(void){ char a[2]={1,0}, b[2]={(char)0xC8,0}; volatile char* p=b; (void)p; CHECK(strview_compare(cstr(a),cstr(b))<0 && strview_compare(cstr(b),cstr(a))>0); return 0; }'''),
dict(id='decrypt_vla', property='C28', needs='decryption of more than the stack holds',
 what='decryption keeps a copy of the whole text on the stack',
 edits=[(SC,'	aes256_init(key, ctx);\n	memcpy(this_xor, ivec, AES_BLOCK_SIZE);\n','	uint8_t copy[len+1];\n	memcpy(copy, buf, len);\n	const uint8_t* from = copy;\n	aes256_init(key, ctx);\n	memcpy(this_xor, ivec, AES_BLOCK_SIZE);\n'),(SC,'		memcpy(next_xor, buf, AES_BLOCK_SIZE);\n','		memcpy(next_xor, from, AES_BLOCK_SIZE);\n		from += AES_BLOCK_SIZE;\n')],
 src=SC+' '+AES, san='', demo=HC+'''int main(void){ uint8_t k[32]={0},iv[16]={0}; int n=9<<20; char* t=malloc(n+1); memset(t,'x',n); t[n]=0; strbuf_t* b=strbuf_create(cstr(t),NULL); strbuf_encrypt(&b,k,iv); strbuf_decrypt(&b,k,iv); CHECK(b->size==n && !memcmp(b->cstr,t,n)); return 0; }'''),
dict(id='append_self_vla', property='C11', needs='own text of more than the stack holds inserted',
 what='own text is copied to the stack before it is inserted',
 edits=[('strbuf.c','	strview_t strview_part_left_behind = STRVIEW_INVALID;\n	strview_t strview_part_shifted;\n	char* move_src;\n','	strview_t strview_part_left_behind = STRVIEW_INVALID;\n	strview_t strview_part_shifted;\n	char copy[src_in_dst && str.size > 0 ? str.size : 1];\n	char* move_src;\n'),('strbuf.c','		if(src_in_dst && buf != *buf_ptr)\n			str.data = buf->cstr + src_offset;\n','		if(src_in_dst && buf != *buf_ptr)\n			str.data = buf->cstr + src_offset;\n		if(src_in_dst)\n		{\n			memcpy(copy, str.data, str.size);\n			str.data = copy;\n			src_in_dst = false;\n		};\n')],
 san='', demo=H+AL+'''int main(void){ int n=9<<20; char* t=malloc(n+1); memset(t,'x',n); t[n]=0; strbuf_t* b=strbuf_create(cstr(t),&A); strbuf_append(&b,strbuf_view(&b)); CHECK(b->size==2*n); return 0; }'''),
dict(id='to_cstr_empty', property='C15', needs='an empty dynamic buffer turned into a C string',
 what='an empty buffer keeps its full allocation when it is turned into a C string',
 edits=[('strbuf.c','			str = allocator.allocator(&allocator, str, len+1);\n','			if(len)\n				str = allocator.allocator(&allocator, str, len+1);\n')],
 demo=H+'''static size_t last; static void* al(struct strbuf_allocator_t* a, void* p, size_t n){ (void)a; last=n; if(!n){ free(p); return NULL; } return realloc(p,n); }
static strbuf_allocator_t A={.allocator=al}; int main(void){ strbuf_t* b=strbuf_create(100,&A); char* c=strbuf_to_cstr(&b); CHECK(!*c && last==1); free(c); return 0; }'''),
dict(id='find_step2', property='C02', needs='a needle of two equal characters found at an odd place after the same character',
 what='the search for a doubled character moves two places at a time',
 edits=[('strview.c','			found = !comp_func(remaining_hay, needle.data, needle.size);\n			remaining_hay += !found;\n','			found = !comp_func(remaining_hay, needle.data, needle.size);\n			if(!found)\n				remaining_hay += needle.size == 2 && needle.data[0] == needle.data[1] && remaining_hay[1] != needle.data[0] && remaining_hay[0] == needle.data[0] && &haystack.data[haystack.size] - remaining_hay > 3 ? 3 : 1;\n')],
 demo=H+'''int main(void){ strview_t h=cstr("abaab"); strview_t r=strview_find_first(cstr("xabaab"),cstr("aa")); CHECK(r.size==2); (void)h; return 0; }'''),
dict(id='pack_zero_skip', property='C27', needs='a zero packed as a type of 8 bytes',
 what='packing a zero of 8 bytes packs 4',
 edits=[('accessories/strbuf_pack.h','	#define STRBUF_PACK_LE(dst, src) do {typeof(src) _pack_tmp = xendian_pack_LE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&_pack_tmp, .size=sizeof(_pack_tmp)});}while(0)','	#define STRBUF_PACK_LE(dst, src) do {typeof(src) _pack_tmp = xendian_pack_LE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&_pack_tmp, .size=sizeof(_pack_tmp) > 4 && !_pack_tmp ? 4 : sizeof(_pack_tmp)});}while(0)')],
 demo=H+AL+'#include "strbuf_pack.h"\n'+'''int main(void){ strbuf_t* b=strbuf_create(16,&A); uint64_t z=0; STRBUF_PACK_LE(&b,z); CHECK(b->size==8); return 0; }'''),
]
