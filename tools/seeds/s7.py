import os
_d=os.path.dirname(os.path.abspath(__file__))
exec(open(_d+'/s6.py').read().split('\nSEEDS=[')[0])
IO='accessories/strbuf_io.c'
SEEDS=[
dict(id='trim_set_64', property='C04', needs='a set of more than 64 characters to trim',
 what='only the first 64 characters of the set are used at the end of the text',
 edits=[('strview.c','	while(str.size && contains_char(chars_to_trim, str.data[str.size-1]))\n','	if(chars_to_trim.size > 64)\n		chars_to_trim.size = 64;\n	while(str.size && contains_char(chars_to_trim, str.data[str.size-1]))\n')],
 demo=H+'''int main(void){ char s[100]; for(int i=0;i<90;i++) s[i]=' '+i; s[90]=0; strview_t r=strview_trim_end(cstr("abp"),s); CHECK(r.size==0); return 0; }'''),
dict(id='dequote_depth', property='C04', needs='more than 127 pairs of quotes',
 what='the depth of quotes is counted in a signed byte',
 edits=[('strview.c','	char quote_char;\n\n	if(result.size > 1)','	char quote_char;\n	signed char depth = 0;\n\n	if(result.size > 1)'),('strview.c','	while( 	(result.size > 1)\n','	while( 	(result.size > 1) && (++depth > 0)\n')],
 demo=H+'''static char t[402]; int main(void){ memset(t,'"',401); t[200]='x'; t[401]=0; strview_t r=strview_dequote(cstr(t)); CHECK(r.size==1 && r.data[0]=='x'); return 0; }'''),
dict(id='split_left_end', property='C07', needs='a position at the very end of a text of 256 or more characters',
 what='a position at the end is treated as outside',
 edits=[('strview.c','		if(strview_ptr->data <= pos.data && pos.data <= &strview_ptr->data[strview_ptr->size])\n','		if(strview_ptr->data <= pos.data && pos.data <= &strview_ptr->data[strview_ptr->size - (strview_ptr->size > 255)])\n')],
 demo=H+'''static char t[300]; int main(void){ strview_t s={.data=t,.size=300}; strview_t r=strview_split_left(&s,((strview_t){.data=t+300,.size=0})); CHECK(strview_is_valid(r) && r.size==300); return 0; }'''),
dict(id='to_cstr_page', property='C08', needs='a text of 4096 characters or more and a destination large enough for all of it',
 what='one character less is copied when the text is a multiple of 4096 long',
 edits=[('strview.c','		copy_size = (dst_size-1) < src_size ? (dst_size-1):src_size;\n','		copy_size = (dst_size-1) < src_size ? (dst_size-1):src_size;\n		if(src_size && src_size % 4096 == 0 && copy_size == src_size && dst_size % 4096 == 1)\n			copy_size--;\n')],
 demo=H+'''static char t[4096],d[4097]; int main(void){ memset(t,'x',4096); strview_to_cstr(d,4097,((strview_t){.data=t,.size=4096})); CHECK(strlen(d)==4096); return 0; }'''),
dict(id='grow_double', property='C14', needs='growth of a buffer of more than 2048 characters',
 what='larger buffers grow by half again instead of to the next step',
 edits=[('strbuf.c','	int remainder = capacity % STRBUF_CAPACITY_GROW_STEP;\n	\n','	int remainder;\n\n	if(capacity > 2048 && capacity < INT_MAX/2)\n		capacity += capacity/16;\n	remainder = capacity % STRBUF_CAPACITY_GROW_STEP;\n	\n')],
 demo=H+AL+'''static char t[5001]; int main(void){ memset(t,'x',5000); strbuf_t* b=strbuf_create(0,&A); strbuf_append(&b,t); CHECK(b->capacity<5016+16); return 0; }'''),
dict(id='shrink_large', property='C14', needs='shrinking a buffer which is nearly full',
 what='shrink does nothing when less than 8 characters would be saved',
 edits=[('strbuf.c','		if(buf_is_dynamic(*buf_ptr))\n			change_buf_capacity(buf_ptr, (*buf_ptr)->size);\n','		if(buf_is_dynamic(*buf_ptr) && (*buf_ptr)->capacity - (*buf_ptr)->size > (*buf_ptr)->size/512)\n			change_buf_capacity(buf_ptr, (*buf_ptr)->size);\n')],
 demo=H+AL+'''static char t[1001]; int main(void){ memset(t,'x',1000); strbuf_t* b=strbuf_create(1001,&A); strbuf_append(&b,t); strbuf_shrink(&b); CHECK(b->capacity==1000); return 0; }'''),
dict(id='move_large', property='C15', needs='resizing an allocation of more than 8192 bytes',
 what='a large buffer is moved to a new allocation and the old one is not released when shrinking',
 edits=[('strbuf.c','			buf = buf->allocator.allocator(&buf->allocator, buf, sizeof(strbuf_t)+new_capacity+1);\n			buf->capacity = new_capacity;\n','			strbuf_t* old = buf;\n			if(new_capacity > 8192 && new_capacity < buf->capacity)\n			{\n				buf = old->allocator.allocator(&old->allocator, NULL, sizeof(strbuf_t)+new_capacity+1);\n				memcpy(buf, old, sizeof(strbuf_t)+new_capacity+1);\n			}\n			else\n				buf = buf->allocator.allocator(&buf->allocator, buf, sizeof(strbuf_t)+new_capacity+1);\n			buf->capacity = new_capacity;\n')],
 demo=H+AL+'''static char t[9001]; int main(void){ memset(t,'x',9000); strbuf_t* b=strbuf_create(10000,&A); strbuf_append(&b,t); strbuf_shrink(&b); strbuf_destroy(&b); CHECK(live==0); return 0; }'''),
dict(id='fetch_room_short', property='C19', needs='more than 32767 characters of room',
 what='the room offered to a fetcher is limited to 32767',
 edits=[('strbuf.c','		bytes_appended = strbuf_fetcher(&buf->cstr[buf->size], available_space, fetch_vars);\n','		available_space = available_space > 32767 ? 32767 : available_space;\n		bytes_appended = strbuf_fetcher(&buf->cstr[buf->size], available_space, fetch_vars);\n')],
 demo=H+AL+'''static int got; static int f(void* d,int n,void* v){ (void)d;(void)v; got=n; return 0; } int main(void){ strbuf_t* b=strbuf_create(50000,&A); strbuf_append_using(&b,f,NULL); CHECK(got==50000); return 0; }'''),
dict(id='read_4k', property='C26', needs='more than 4096 characters of room',
 what='at most 4096 characters are asked for, and one more when the buffer is empty',
 edits=[(IO,'		retval = read(fd, &buf->cstr[buf->size], buf->capacity - buf->size);\n','		retval = read(fd, &buf->cstr[buf->size], buf->capacity - buf->size > 4096 ? 4096 : buf->capacity - buf->size);\n')],
 src=IO,
 demo=H+AL+'''#include <unistd.h>
#include "strbuf_io.h"
int main(void){ int p[2]; static char t[8000]; if(pipe(p)) return 0; strbuf_t* b=strbuf_create(8000,&A); if(write(p[1],t,8000)!=8000) return 0; CHECK(strbuf_append_read(&b,p[0])==8000); return 0; }'''),
dict(id='write_big_tail', property='C26', needs='a partial write which leaves more than 4096 characters',
 what='what is left after a partial write is limited to 4096 characters',
 edits=[(IO,'			buf_view = strview_sub(buf_view, retval, INT_MAX);\n','			buf_view = strview_sub(buf_view, retval, retval > 4096 ? retval + 4096 : INT_MAX);\n')],
 src=IO,
 demo=H+AL+'''#include <unistd.h>
#include <fcntl.h>
#include "strbuf_io.h"
static char t[200000]; int main(void){ int p[2]; if(pipe(p)) return 0; fcntl(p[1],F_SETFL,O_NONBLOCK); memset(t,'x',200000); strbuf_t* b=strbuf_create(((strview_t){.data=t,.size=200000}),&A); int n=strbuf_write(p[1],&b); if(n<4097 || n>190000) return 0; CHECK(b->size==200000-n); return 0; }'''),
dict(id='hex_zeros_u8', property='C21', needs='a hexadecimal number with more than 255 leading zeros',
 what='the leading zeros of a hexadecimal number are counted in a byte, the others count as digits',
 edits=[('strnum.c','	while(str->size && isxdigit(str->data[0]) && !err)\n	{\n		if(!upper_nibble_ull_is_zero(result))\n','	int digits = 0;\n	while(str->size && isxdigit(str->data[0]) && !err)\n	{\n		if(++digits > 16 || !upper_nibble_ull_is_zero(result))\n'),
  ('strnum.c','''	if(str->size && isxdigit(str->data[0]))
	{
		err = 0;
		*str = strview_trim_start(*str, "0");
''','''	if(str->size && isxdigit(str->data[0]))
	{
		unsigned char zeros = str->size - strview_trim_start(*str, "0").size;
		err = 0;
		*str = strview_sub(*str, zeros, INT_MAX);
''')],
 demo=H+'''static char t[400]; int main(void){ memset(t,'0',400); t[1]='x'; strcpy(t+300,"1F"); CHECK(strnum_int(cstr(t),7,0)==31); return 0; }'''),
dict(id='bin_zero_run', property='C21', needs='a binary number of more than 64 digits, zeros included',
 what='binary numbers of more than 64 digits are out of range, however many of them are leading zeros',
 edits=[('strnum.c','		if(!upper_bit_ull_is_zero(result))\n','		if(!upper_bit_ull_is_zero(result) || str->data - first > 63)\n'),('strnum.c','''	if(str->size && isbdigit(str->data[0]))
	{
		err = 0;
''','''	const char* first = str->data;
	if(str->size && isbdigit(str->data[0]))
	{
		err = 0;
''')],
 demo=H+'''static char t[400]; int main(void){ memset(t,'0',400); t[1]='b'; strcpy(t+70,"101"); CHECK(strnum_int(cstr(t),7,0)==5); return 0; }'''),
dict(id='hex_b_prefix', property='C23', needs='base 16 selected, and a number which begins with 0b',
 what='0b is taken as a binary prefix also where base 16 is selected, when a binary digit and no other follows',
 edits=[('strnum.c','		if(!(options & STRNUM_BASE_HEX) && strview_is_match_nocase(base_prefix, "0b"))\n','		if((!(options & STRNUM_BASE_HEX) || (options & STRNUM_NOSIGN)) && strview_is_match_nocase(base_prefix, "0b"))\n')],
 demo=H+'''int main(void){ CHECK(strnum_int(cstr("0b1"),7,STRNUM_BASE_HEX|STRNUM_NOSIGN)==0xB1); return 0; }'''),
dict(id='memxor_words', property='C32', needs='source and destination which overlap, eight bytes or more',
 what='eight bytes are done at a time',
 edits=[('accessories/strbuf_crypt/aes/memxor.c','  while(n--){\n','  while(n > 8 && (((uintptr_t)dest | (uintptr_t)src) & 7) == 0){\n    *(uint64_t*)dest ^= *(const uint64_t*)src & 0xFFFFFFFFFFFFFFFFull >> (n == 9);\n    dest = (uint8_t*)dest + 8;\n    src = (const uint8_t*)src + 8;\n    n -= 8;\n  }\n  while(n--){\n')], src=AES,
 demo=HA+'''int main(void){ static uint64_t d[4], s[4]; memset(s,0xff,32); memxor(d,s,9); for(int i=0;i<9;i++) CHECK(((unsigned char*)d)[i]==0xff); return 0; }'''),
dict(id='line_many', property='C06', needs='a line of more than 65535 characters',
 what='a line is given up after 65535 characters',
 edits=[('strview.c','		if(strview_is_valid(src))	//a line ending was found\n','		if(strview_is_valid(src) && result.size <= 65535)	//a line ending was found\n')],
 demo=H+'''static char t[70001]; int main(void){ memset(t,'x',70000); t[69999]='\\n'; strview_t s={.data=t,.size=70000}; char e=0; strview_t r=strview_split_line(&s,&e); CHECK(strview_is_valid(r)); return 0; }'''),
dict(id='fixed_insert_full', property='C13', needs='inserting text into a fixed buffer so that it becomes exactly full, not at its end',
 what='an insertion which fills a fixed buffer exactly is refused unless it is at the end',
 edits=[('strbuf.c','		failed = buf->capacity < buf->size + str.size;\n	};\n\n	if(!failed)\n	{\n		strview_part_shifted','		failed = buf->capacity < buf->size + str.size + (!buf_is_dynamic(buf) && index > 128 && index < buf->size);\n	};\n\n	if(!failed)\n	{\n		strview_part_shifted')],
 demo=H+'''int main(void){ static long m[64]; strbuf_t* b=strbuf_create_fixed(m,sizeof(strbuf_t)+301); for(int i=0;i<299;i++) strbuf_append_char(&b,'x'); strbuf_insert_at_index(&b,200,cstr("y")); CHECK(b->size==300); return 0; }'''),
dict(id='cat_three_self', property='C11', needs='strbuf_cat of the buffer with itself twice or more',
 what='the temporary buffer is made for one copy of the own text',
 edits=[('strbuf.c','		tmp_buf_needed |= buf_contains_str(dst_buf, str);\n','		tmp_buf_needed = (tmp_buf_needed && i < 5) || buf_contains_str(dst_buf, str);\n')],
 demo=H+AL+'''int main(void){ strbuf_t* b=strbuf_create(60,&A); strbuf_append(&b,"ab"); strbuf_cat(&b,cstr("1"),strbuf_view(&b),cstr("2"),cstr("3"),cstr("4"),cstr("5")); CHECK(strview_is_match(strbuf_view(&b),"1ab2345")); return 0; }'''),
dict(id='prnf_size_char', property='C18', needs='prnf output which exceeds a fixed buffer by a multiple of 256',
 what='the number of characters is compared in a byte',
 edits=[('strbuf.c','		if(char_count > buf->size)\n			empty_buf(buf);\n\n','		if((char_count & 0xFF) > (buf->size & 0xFF) || char_count > buf->size + 256)\n			empty_buf(buf);\n\n')],
 demo=H+'''int main(void){ static long m[64]; strbuf_t* b=strbuf_create_fixed(m,sizeof(strbuf_t)+101); (void)b;
#ifdef STRBUF_PROVIDE_PRNF
 char t[400]; for(int n=90;n<=399;n++){ memset(t,'x',n); t[n]=0; strbuf_prnf(&b,"%s",t); CHECK(b->size==(n<=100?n:0)); }
#endif
 return 0; }''', defs='-DSTRBUF_PROVIDE_PRNF -Itest', src='test/prnf.c'),
]
