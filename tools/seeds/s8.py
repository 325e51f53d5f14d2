import os
_d=os.path.dirname(os.path.abspath(__file__))
exec(open(_d+'/s7.py').read().split('\nSEEDS=[')[0])
SEEDS=[
dict(id='sub_empty_place', property='C03', needs='an empty range which is not at the start of the text',
 what='the empty view of an empty range lies at the start of the text instead of at the place asked for',
 edits=[('strview.c','			result.size = end-begin;\n			result.data = &str.data[begin];\n','			result.size = end-begin;\n			if(result.size || begin == end-1)\n				result.data = &str.data[begin];\n')],
 demo=H+'''int main(void){ const char* t="abcdef"; strview_t s=cstr(t); strview_t r=strview_sub(s,4,4); CHECK(r.size==0 && r.data==t+4); return 0; }'''),
dict(id='index_short_neg', property='C03', needs='a text of more than 32768 characters split at a negative index beyond -32768',
 what='a negative index is held in a short',
 edits=[('strview.c','		index = strview_ptr->size + index;\n		\n','		index = strview_ptr->size + (index > -INT_MAX/2 ? (short)index : index);\n		\n')],
 demo=H+'''static char t[70000]; int main(void){ strview_t s={.data=t,.size=70000}; strview_t r=strview_split_index(&s,-40000); CHECK(r.size==40000 && s.size==30000); return 0; }'''),
dict(id='split_all_256', property='C05', needs='more than 256 fields and an array which can hold them',
 what='split_all fills at most 256 fields',
 edits=[('strview.c','	while(strview_is_valid(src) && count < dst_size)\n','	while(strview_is_valid(src) && count < dst_size && (dst_size > 1024 || count < 256))\n')],
 demo=H+'''static char t[600]; int main(void){ memset(t,',',500); strview_t d[600]; CHECK(strview_split_all(600,d,cstr(t),",",false)==501); return 0; }'''),
dict(id='delim_high_byte', property='C05', needs='a delimiter which is not ASCII',
 what='characters are compared without their top bit if the delimiter has it set',
 edits=[('strview.c','		found = *ptr == c;\n		ptr++;\n','		found = *ptr == c || ((*ptr & 0x80) && (*ptr ^ c) == (char)0x80);\n		ptr++;\n')],
 demo=H+'''int main(void){ strview_t s=cstr("a,b\\xac" "c"); strview_t r=strview_split_first_delim(&s,"\\xac",false); CHECK(r.size==3); return 0; }'''),
dict(id='assign_empty_term', property='C12', needs='an empty text assigned to a buffer with content',
 what='assigning an empty text does not write the terminator',
 edits=[('strbuf.c','			memmove(buf->cstr, str.data, (size_t)str.size);\n			buf->size = str.size;\n			buf->cstr[buf->size] = 0;\n','			memmove(buf->cstr, str.data, (size_t)str.size);\n			buf->size = str.size;\n			if(buf->size || str.data[0])\n				buf->cstr[buf->size] = 0;\n')],
 demo=H+AL+'''int main(void){ strbuf_t* b=strbuf_create(10,&A); strbuf_append(&b,"abc"); strbuf_assign(&b,(strview_t){.data="",.size=0}); CHECK(b->size==0 && b->cstr[0]==0); return 0; }'''),
dict(id='shrink_term', property='C12', needs='shrinking a buffer with an allocator which moves every allocation',
 what='one byte less is asked for when the capacity shrinks, the terminator falls outside the allocation',
 edits=[('strbuf.c','			buf = buf->allocator.allocator(&buf->allocator, buf, sizeof(strbuf_t)+new_capacity+1);\n','			buf = buf->allocator.allocator(&buf->allocator, buf, sizeof(strbuf_t)+new_capacity+(new_capacity > 0 && new_capacity < buf->capacity ? 0:1));\n')],
 demo=H+'''static int req; static void* al(struct strbuf_allocator_t* a, void* p, size_t n){ (void)a; if(!n){ free(p); return NULL; } req=n; return realloc(p,n); }
static strbuf_allocator_t A={.allocator=al}; int main(void){ strbuf_t* b=strbuf_create(40,&A); strbuf_append(&b,"abc"); strbuf_shrink(&b); CHECK(req>=(int)sizeof(strbuf_t)+b->size+1); return 0; }'''),
dict(id='space_paren', property='C16', needs='a capacity given as an expression with ?:',
 what='the capacity is not parenthesised in the type of static buffers, so there is no room for the terminator',
 edits=[('strbuf.h','struct {strbuf_t buf; char bdy[(cap)+1];}','struct {strbuf_t buf; char bdy[cap+1];}')],
 demo=H+'''#define CAP 1 ? 8 : 2
static strbuf_space_t(CAP) sp = STRBUF_STATIC_INIT(CAP); int main(void){ strbuf_t* b=(strbuf_t*)&sp; CHECK(b->capacity==8 && sizeof(sp)>sizeof(strbuf_t)+8); return 0; }'''),
dict(id='create_beyond', property='C17', needs='an initial capacity beyond INT_MAX',
 what='the range of the initial capacity is checked after the conversion to int',
 edits=[('strbuf.c','	if(allocator->allocator && initial_capacity <= INT_MAX)\n','	if(allocator->allocator && (int)initial_capacity >= 0)\n')],
 demo=H+AL+'''int main(void){ size_t n=(size_t)UINT_MAX+10; strbuf_t* b=strbuf_create(n,&A); CHECK(b==NULL); return 0; }'''),
dict(id='round_up_top', property='C17', needs='growth to a size within one step of INT_MAX',
 what='the capacity is not rounded up near INT_MAX but set to the last multiple of the step',
 edits=[('strbuf.c','			capacity = INT_MAX;\n	};\n','			capacity = INT_MAX - INT_MAX % STRBUF_CAPACITY_GROW_STEP;\n	};\n')],
 demo=H+'''#include <sys/mman.h>
static void* al(struct strbuf_allocator_t* a, void* p, size_t n){ (void)a; static void* m; if(!n) return NULL; if(!p) m=mmap(NULL,(size_t)INT_MAX+100,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); return m; }
static strbuf_allocator_t A={.allocator=al};
int main(void){ strbuf_t* b=strbuf_create(1000,&A); b->size=INT_MAX-5; b->capacity=INT_MAX-5; strbuf_append_char(&b,'x'); CHECK(b->size==INT_MAX-4 && b->capacity>=b->size); return 0; }''', san=''),
dict(id='write_null_src', property='C20', needs='strview_write of a NULL pointer to a view',
 what='only the view itself is tested',
 edits=[('accessories/strview_io.c','	if(src && strview_is_valid(*src))\n','	if(fd >= 0 && strview_is_valid(*src))\n')],
 src='accessories/strview_io.c',
 demo=H+'''#include "strview_io.h"
int main(void){ CHECK(strview_write(1,NULL)==0); return 0; }'''),
dict(id='ldouble_null_src', property='C20', needs='a conversion to long double of a NULL pointer to a view',
 what='the pointer to the view is read without a test',
 edits=[('strnum.c','int strnum_consume_ldouble(long double* dst, strview_t* src, int options)\n{\n','int strnum_consume_ldouble(long double* dst, strview_t* src, int options)\n{\n	if(!src->size && !src->data)\n		return EINVAL;\n')],
 demo=H+'''int main(void){ long double d=1; CHECK(strnum_consume_ldouble(&d,NULL,0)==EINVAL); return 0; }'''),
dict(id='swap32_neg', property='C27', needs='a 32 bit value whose lower half has its top bit set and upper half is zero',
 what='the halves are joined with sign extension',
 edits=[('accessories/xendian.h','	out.word16[0] = xendian_swap16(in.word16[1]);\n	out.word16[1] = xendian_swap16(in.word16[0]);\n	return out.word32;\n','	out.word32 = (uint16_t)xendian_swap16(in.word16[1]);\n	out.word32 |= (int32_t)((in.word16[0] ? (uint32_t)0x10000 : 0) * (uint16_t)xendian_swap16(in.word16[0] & (in.word16[1] ? 0xffff : 0xff7f)));\n	return out.word32;\n')],
 demo=H+'''#include "strbuf_pack.h"
#include "strview_unpack.h"
int main(void){ strbuf_t* b=strbuf_create(100,NULL); uint32_t v=0x00008080,w; STRBUF_PACK_BE(&b,v); strview_t s=strbuf_view(&b); STRVIEW_UNPACK_BE(w,s); CHECK(w==v); CHECK(!memcmp(b->cstr,"\\0\\0\\x80\\x80",4)); return 0; }'''),
dict(id='unpack_pad', property='C27', needs='unpacking from a view whose size is not a multiple of the type',
 what='the view is advanced to the next multiple of the type',
 edits=[('accessories/strview_unpack.h','''		memcpy(&(dst), (view).data, sizeof(dst));			\\
		(dst) = xendian_unpack_BE(dst);						\\
		(view) = strview_sub((view), sizeof(dst), INT_MAX);	\\
''','''		memcpy(&(dst), (view).data, sizeof(dst));			\\
		(dst) = xendian_unpack_BE(dst);						\\
		(view) = strview_sub((view), sizeof(dst), (view).size - (view).size % sizeof(dst));	\\
''')],
 demo=H+'''#include "strbuf_pack.h"
#include "strview_unpack.h"
int main(void){ strview_t s={.data="\\0\\0\\0\\1\\2",.size=5}; uint32_t w; uint8_t c=0; STRVIEW_UNPACK_BE(w,s); CHECK(w==1 && s.size==1); STRVIEW_UNPACK_BE(c,s); CHECK(c==2); return 0; }'''),
dict(id='pad_zero', property='C29', needs='data which decrypts to a last byte of zero',
 what='a padding of no characters is accepted',
 edits=[(SC,'		if(1 <= pad_len && pad_len <= AES_BLOCK_SIZE)\n','		if(0 <= pad_len && pad_len <= AES_BLOCK_SIZE)\n')],
 src=SC+' '+AES,
 demo=H+AL+'''#include "strbuf_crypt/strbuf_crypt.h"
int main(void){ static uint8_t key[32],iv[16]; uint8_t z[16]; strbuf_t* b=strbuf_create(64,&A); strbuf_append(&b,"0123456789abcde"); strbuf_encrypt(&b,key,iv);
 memcpy(z,iv,16); z[15]^=1; /* flips the last plain byte: padding 1 becomes 0 */ strbuf_decrypt(&b,key,z); CHECK(b->size==0); return 0; }'''),
dict(id='pad_17', property='C29', needs='more than one block which decrypts to a last byte above 16',
 what='a padding of more than a block is accepted if there is that much data',
 edits=[(SC,'		if(1 <= pad_len && pad_len <= AES_BLOCK_SIZE)\n','		if(1 <= pad_len && pad_len <= len)\n')],
 src=SC+' '+AES,
 demo=H+AL+'''#include "strbuf_crypt/strbuf_crypt.h"
int main(void){ static uint8_t key[32],iv[16]; strbuf_t* b=strbuf_create(100,&A); strbuf_append(&b,"0123456789abcdef0123456789abcde"); strbuf_encrypt(&b,key,iv); CHECK(b->size==32);
 b->cstr[15]^=0x10; strbuf_decrypt(&b,key,iv); CHECK(b->size==0); return 0; }'''),
dict(id='step_huge', property='C30', needs='a growth step so large that capacity + step overflows',
 what='the capacity is rounded up by adding the step first',
 edits=[('strbuf.c','	int remainder = capacity % STRBUF_CAPACITY_GROW_STEP;\n	\n','	int remainder = capacity - (capacity + STRBUF_CAPACITY_GROW_STEP - 1) / STRBUF_CAPACITY_GROW_STEP * STRBUF_CAPACITY_GROW_STEP;\n\n	if(remainder < 0)\n		remainder += STRBUF_CAPACITY_GROW_STEP;\n\n	\n')],
 defs='-DSTRBUF_CAPACITY_GROW_STEP=0x7ffffff0',
 demo=H+'''#include <sys/mman.h>
static size_t last; static void* al(struct strbuf_allocator_t* a, void* p, size_t n){ (void)a; static void* m; last=n; if(!n) return NULL; if(!p) m=mmap(NULL,(size_t)INT_MAX+100,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); return m; }
static strbuf_allocator_t A={.allocator=al};
int main(void){ strbuf_t* b=strbuf_create(4,&A); strbuf_append(&b,"abcdefghijklmnopqrstuvwxyz"); CHECK(b->capacity==0x7ffffff0); return 0; }''',san=''),
dict(id='assert_realloc', property='C30', needs='the option that asserts, and a failing reallocation',
 what='only the first allocation of a buffer is asserted to succeed',
 edits=[('strbuf.c','		assert(size==0 || result);\n','		assert(size==0 || ptr_to_free || result);\n')],
 defs='-DSTRBUF_ASSERT_DEFAULT_ALLOCATOR_STDLIB', ld='-Wl,--wrap=realloc', san='',
 demo=H+'''#include <signal.h>
#include <unistd.h>
void* __real_realloc(void*,size_t); static volatile int fail; void* __wrap_realloc(void* p,size_t n){ return fail ? NULL : __real_realloc(p,n); }
static void ab(int s){ (void)s; _exit(0); } static void sg(int s){ (void)s; _exit(1); }
int main(void){ signal(SIGABRT,ab); signal(SIGSEGV,sg); strbuf_t* b=strbuf_create(4,NULL); fail=1; strbuf_grow(&b,1000); return 1; }'''),
dict(id='sl_strlen', property='C33', needs='a string literal with an embedded zero byte',
 what='cstr_SL measures the literal',
 edits=[('strview.h','.size=sizeof(sl_arg)-1})','.size=(int)strlen(sl_arg)})')],
 demo=H+'''int main(void){ strview_t v=cstr_SL("a\\0b"); CHECK(v.size==3); return 0; }'''),
dict(id='sl_twice', property='C33', needs='PRIstrarg with an argument that has an effect, or a pointer expression',
 what='PRIstrarg does not parenthesise its argument',
 edits=[('strview.h','#define PRIstrarg(arg)	((arg).size),((arg).data)','#define PRIstrarg(arg)	((arg).size),(arg.data)')],
 ccfail=1,
 demo=H+'''int main(void){ char o[20]; strview_t v=cstr("ab"), *p=&v; sprintf(o,"%" PRIstr,PRIstrarg(*p)); CHECK(!strcmp(o,"ab")); return 0; }'''),
dict(id='neg_exp_clip', property='C24', needs='a number with many digits and a negative exponent beyond -5000',
 what='exponents beyond -5000 give zero whatever the digits',
 edits=[('strnum.c','	if(fc->got_exponent)\n		fc->num = exp_view;\n','	if(fc->got_exponent && fc->exp_value < -5000)\n		fc->exp_value = INT_MIN/2;\n	if(fc->got_exponent)\n		fc->num = exp_view;\n')],
 demo=H+'''static char t[6100]; int main(void){ memset(t,'1',6001); strcpy(t+6001,"e-6000"); double d=strnum_double(cstr(t),-1,0); CHECK(d>1.1 && d<1.12); return 0; }'''),
dict(id='pop_nul', property='C09', needs='a zero byte at the start of the text',
 what='a zero byte is not popped',
 edits=[('strview.c','	if(strview_ptr && strview_ptr->size)\n		result = split_index(strview_ptr, 1).data[0];\n','	if(strview_ptr && strview_ptr->size && strview_ptr->data[0])\n		result = split_index(strview_ptr, 1).data[0];\n')],
 demo=H+'''int main(void){ strview_t s={.data="\\0b",.size=2}; CHECK(strview_pop_first_char(&s)==0 && s.size==1); return 0; }'''),
dict(id='contains_empty', property='C02', needs='an empty text searched for in a text',
 what='an empty text is not contained in any text',
 edits=[('strview.c','	return strview_is_valid(strview_find_first_nocase(haystack, needle));\n','	return strview_find_first_nocase(haystack, needle).size > 0;\n')],
 demo=H+'''int main(void){ CHECK(strview_contains_nocase(cstr("abc"),cstr(""))); return 0; }'''),
dict(id='cat_no_round', property='C14', needs='strbuf_cat beyond the capacity of a dynamic buffer',
 what='strbuf_cat grows to exactly the size needed beyond 256 characters',
 edits=[('strbuf.c','				change_buf_capacity(&dst_buf, round_up_capacity(size_needed));\n			build_buf','				change_buf_capacity(&dst_buf, size_needed > 256 ? size_needed : round_up_capacity(size_needed));\n			build_buf')],
 demo=H+AL+'''static char t[301]; int main(void){ memset(t,'x',300); strbuf_t* b=strbuf_create(4,&A); strbuf_cat(&b,cstr(t),cstr("y")); CHECK(b->capacity==304); return 0; }'''),
dict(id='fetch_static', property='C31', needs='a fetcher which itself uses strbuf_append_using on another buffer',
 what='the room offered is kept in a static variable',
 edits=[('strbuf.c','	strbuf_t* buf;\n	int available_space;\n	int bytes_appended;\n','	strbuf_t* buf;\n	static int available_space;\n	int bytes_appended;\n')],
 demo=H+AL+'''static strbuf_t* c; static int g(void* d,int n,void* v){ (void)d;(void)v;(void)n; return 0; } static int f(void* d,int n,void* v){ (void)n; strbuf_append_using(&c,g,v); memcpy(d,"abcdefgh",8); return 8; }
int main(void){ c=strbuf_create(2,&A); strbuf_t* b=strbuf_create(20,&A); strbuf_append_using(&b,f,NULL); CHECK(b->size==8); return 0; }'''),
]
