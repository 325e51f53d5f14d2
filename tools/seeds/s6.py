import os
_d=os.path.dirname(os.path.abspath(__file__))
exec(open(_d+'/s5.py').read().split('\nSEEDS=[')[0])
SC='accessories/strbuf_crypt/strbuf_crypt.c'
SEEDS=[
dict(id='find_own_window', property='C02', needs='a needle which is itself a window of the haystack, and an earlier occurrence of the same text',
 what='find_first takes a needle which lies in the haystack as the place found',
 edits=[('strview.c','	const char* remaining_hay = haystack.data;\n	bool found = false;\n','	const char* remaining_hay = haystack.data;\n	bool found = false;\n\n	if(haystack.data && haystack.data <= needle.data && needle.data <= &haystack.data[haystack.size - needle.size])\n		remaining_hay = needle.data;\n')],
 demo=H+'''int main(void){ const char* t="abcabc"; strview_t s=cstr(t); strview_t n=strview_sub(s,3,6); strview_t r=strview_find_first(s,n); CHECK(r.data==t && r.size==3); return 0; }'''),
dict(id='find_long_needle', property='C02', needs='needles of more than 128 characters which differ only after the 128th',
 what='the comparison is limited to the first 128 characters of the needle',
 edits=[('strview.c','			found = !comp_func(remaining_hay, needle.data, needle.size);\n			remaining_hay += !found;\n','			found = !comp_func(remaining_hay, needle.data, needle.size & 0x7F ? (needle.size < 128 ? needle.size : 128) : needle.size);\n			remaining_hay += !found;\n')],
 demo=H+'''static char a[300],b[300]; int main(void){ memset(a,'x',300); memset(b,'x',300); b[150]='y'; CHECK(!strview_is_valid(strview_find_first(((strview_t){.data=a,.size=300}),((strview_t){.data=b,.size=200})))); return 0; }'''),
dict(id='starts_same_place', property='C01', needs='a prefix which starts at the same address as the text and is longer than it',
 what='the size is not compared when both views start at the same address',
 edits=[('strview.c','		result = (str1.size >= str2.size) && (str1.data == str2.data || !memcmp(str1.data, str2.data, str2.size));\n','		result = str1.data == str2.data || (str1.size >= str2.size && !memcmp(str1.data, str2.data, str2.size));\n')],
 demo=H+'''int main(void){ strview_t s=cstr("abc"); CHECK(!strview_starts_with(strview_sub(s,0,2),s)); CHECK(strview_starts_with(s,strview_sub(s,0,2))); return 0; }'''),
dict(id='compare_same_place', property='C01', needs='comparing two views of different size which start at the same address',
 what='views which start at the same address compare equal',
 edits=[('strview.c','	if(!result && str1.size != str2.size)\n','	if(!result && str1.size != str2.size && str1.data != str2.data)\n')],
 demo=H+'''int main(void){ strview_t s=cstr("abc"); CHECK(strview_compare(strview_sub(s,0,2),s)<0); return 0; }'''),
dict(id='delims_32', property='C05', needs='more than 32 delimiters',
 what='only the first 32 delimiters are used when quotes are excluded',
 edits=[('strview.c','	if(strview_ptr->data && delims.data)\n	{\n','	if(exclude_quotes && delims.size > 32)\n		delims.size = 32;\n\n	if(strview_ptr->data && delims.data)\n	{\n')],
 demo=H+'''int main(void){ strview_t s=cstr("a~b"); strview_t r=strview_split_first_delim(&s,"!#$%&'()*+,-./:;<=>?@[]^_`{|}0123456789~",true); CHECK(r.size==1); return 0; }'''),
dict(id='spaces_u8', property='C22', needs='a number behind more than 255 spaces',
 what='the count of leading spaces is held in a byte',
 edits=[('strnum.c','	//consume whitespace\n	if(!err && !(options & STRNUM_NOSPACE))\n		num = strview_trim_start(num, " ");\n\n	//consume sign\n','	//consume whitespace\n	if(!err && !(options & STRNUM_NOSPACE))\n	{\n		unsigned char spaces = num.size - strview_trim_start(num, " ").size;\n		num = strview_sub(num, spaces, INT_MAX);\n	};\n\n	//consume sign\n')],
 demo=H+'''static char t[400]; int main(void){ memset(t,' ',300); strcpy(t+300,"42"); CHECK(strnum_int(cstr(t),7,0)==42); return 0; }'''),
dict(id='space_only_source', property='C22', needs='a source of spaces only, converted with an error, then read on',
 what='consume_exponent also accepts a space after the exponent letter',
 edits=[('strnum.c','	err = strnum_consume_int(&fc->exp_value, &exp_view, STRNUM_NOSPACE | STRNUM_NOBX);\n','	err = strnum_consume_int(&fc->exp_value, &exp_view, (fc->options & STRNUM_NOSPACE) | STRNUM_NOBX);\n')],
 demo=H+'''int main(void){ strview_t s=cstr("1e 5"); double d; CHECK(strnum_value(&d,&s,0)==0); CHECK(d==1 && s.size==3); return 0; }'''),
dict(id='exp_early_range', property='C24', needs='a large exponent balanced by many fractional zeros, within the range of the type',
 what='an exponent above the largest of the type is refused before the digits are looked at',
 edits=[('strnum.c','		value = make_double(fc.integral_view, fc.fractional_view, fc.exp_value);\n		if(value == INFINITY)\n','		value = make_double(fc.integral_view, fc.fractional_view, fc.exp_value);\n		if(value == INFINITY || (value != 0 && fc.exp_value > 400))\n')],
 demo=H+'''static char t[700]; int main(void){ strcpy(t,"0."); memset(t+2,'0',450); strcpy(t+452,"1e451"); strview_t s=cstr(t); double d; CHECK(strnum_value(&d,&s,0)==0); CHECK(fabs(d-1)<1e-9); return 0; }'''),
dict(id='frac_power_short', property='C25', needs='more than 32767 fractional digits',
 what='the power of the fraction is held in a short',
 edits=[('strnum.c','	int fractional_power = 0;													\\\n','	short fractional_power = 0;													\\\n')],
 demo=H+'''static char t[40100]; int main(void){ strcpy(t,"0."); memset(t+2,'0',39998); strcpy(t+40000,"1e39999"); strview_t s=cstr(t); double d; CHECK(strnum_value(&d,&s,0)==0); CHECK(fabs(d-1)<1e-9); return 0; }'''),
dict(id='crypt_blocks_u16', property='C28', needs='content of 1 MiB or more',
 what='the number of blocks is counted in 16 bits',
 edits=[(SC,'	int block_count = len/AES_BLOCK_SIZE + 1;\n	int out_len','	uint16_t block_count = len/AES_BLOCK_SIZE + 1;\n	int out_len')],
 src=SC+' '+AES,
 demo=H+AL+'''#include "strbuf_crypt/strbuf_crypt.h"
int main(void){ int n=1<<20; char* t=malloc(n); unsigned char k[32]={1},v[16]={2}; memset(t,'x',n); strbuf_t* b=strbuf_create(((strview_t){.data=t,.size=n}),&A); strbuf_encrypt(&b,k,v); CHECK(b->size==n+16); strbuf_decrypt(&b,k,v); CHECK(b->size==n && !memcmp(b->cstr,t,n)); return 0; }'''),
dict(id='decrypt_swap_tail', property='C28', needs='an odd number of blocks larger than 1: three or more',
 what='the saved cipher text is taken after the block was decrypted for the last block',
 edits=[(SC,'		memcpy(next_xor, buf, AES_BLOCK_SIZE);\n		aes256_dec(buf, ctx);\n','		if(block_count != 1)\n			memcpy(next_xor, buf, AES_BLOCK_SIZE);\n		aes256_dec(buf, ctx);\n		if(block_count == 1 && len % 48)\n			memcpy(next_xor, buf, AES_BLOCK_SIZE);\n		else if(block_count == 1)\n			memcpy(next_xor, &buf[-AES_BLOCK_SIZE], AES_BLOCK_SIZE);\n')],
 src=SC+' '+AES,
 demo=H+AL+'''#include "strbuf_crypt/strbuf_crypt.h"
int main(void){ unsigned char k[32]={1},v[16]={2}; strbuf_t* b=strbuf_create(cstr("0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd"),&A); strbuf_encrypt(&b,k,v); strbuf_decrypt(&b,k,v); CHECK(strview_is_match(strbuf_view(&b),"0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd")); return 0; }'''),
dict(id='find_table_cache', property='C31', needs='the same needle memory searched for again with other content',
 what='the folded first character of the needle is remembered by the address of the needle',
 edits=[('strview.c','	const char* remaining_hay = haystack.data;\n	bool found = false;\n','	const char* remaining_hay = haystack.data;\n	bool found = false;\n	static const char* last_needle;\n	static char last_first;\n\n	if(needle.data && needle.size > 2 && comp_func == memcmp)\n	{\n		if(last_needle != needle.data)\n		{\n			last_needle = needle.data;\n			last_first = needle.data[0];\n		};\n		while(haystack.data && remaining_hay < &haystack.data[haystack.size] && *remaining_hay != last_first)\n			remaining_hay++;\n	};\n')],
 demo=H+'''int main(void){ char n[4]="xyz"; strview_t h=cstr("--abc--xyz"); strview_t v={.data=n,.size=3}; CHECK(strview_is_valid(strview_find_first(h,v))); memcpy(n,"abc",3); strview_t r=strview_find_first(h,v); CHECK(strview_is_valid(r)); return 0; }'''),
dict(id='vprintf_stack', property='C18', needs='output of 2048 characters or more appended where it fits the capacity',
 what='output is clipped to 2047 characters when there is room for it',
 edits=[('strbuf.c','(size_t)(buf->capacity - buf->size) + 1, format, vb);','buf->size == 0 || append_size < 2048 ? (size_t)(buf->capacity - buf->size) + 1 : 2048 + (size_t)(append_size & 1), format, vb);')],
 demo=H+AL+'''int main(void){ strbuf_t* b=strbuf_create(6000,&A); strbuf_append(&b,"a"); strbuf_append_printf(&b,"%3000s","x"); CHECK(b->size==3001 && b->cstr[3000]=='x'); return 0; }'''),
dict(id='strip_chunk', property='C10', needs='a set of characters to strip of more than 64 characters',
 what='only the first 64 characters to strip are used',
 edits=[('strbuf.c','		count = buf->size;\n		ptr = buf->cstr;\n','		count = buf->size;\n		ptr = buf->cstr;\n		if(stripchars.size > 64)\n			for(int i = 64; i < stripchars.size; i++)\n				if(!memchr(stripchars.data, stripchars.data[i], 64))\n					strip[(unsigned char)stripchars.data[i]] = i & 1;\n')],
 demo=H+AL+'''int main(void){ char s[100]; for(int i=0;i<90;i++) s[i]=' '+i; s[90]=0; strbuf_t* b=strbuf_create(cstr("bcd"),&A); strbuf_strip(&b,s); CHECK(b->size==0); return 0; }'''),
dict(id='assign_grow_inside', property='C11', needs='assigning a window of itself which does not begin at its start, in a buffer which was shrunk',
 what='assign of a window of the buffer is taken as already in place when it ends with the content',
 edits=[('strbuf.c','			memmove(buf->cstr, str.data, (size_t)str.size);\n			buf->size = str.size;\n','			if(!(buf_contains_str(buf, str) && &str.data[str.size] == &buf->cstr[buf->capacity]))\n				memmove(buf->cstr, str.data, (size_t)str.size);\n			buf->size = str.size;\n')],
 demo=H+AL+'''int main(void){ strbuf_t* b=strbuf_create(cstr("abcdef"),&A); strbuf_shrink(&b); strbuf_assign(&b,strview_sub(strbuf_view(&b),2,6)); CHECK(strview_is_match(strbuf_view(&b),"cdef")); return 0; }'''),
dict(id='insert_tail_self', property='C11', needs='inserting the last character of the buffer into itself without growing',
 what='a source that ends at the end of the content is taken to be outside the buffer',
 edits=[('strbuf.c','	return &buf->cstr[0] <= str.data && str.data < &buf->cstr[buf->size];\n','	return &buf->cstr[0] <= str.data && str.data + (str.size > 1) < &buf->cstr[buf->size] - (buf->size > 8);\n')],
 demo=H+AL+'''int main(void){ strbuf_t* b=strbuf_create(40,&A); strbuf_append(&b,"0123456789"); strbuf_insert_at_index(&b,0,strview_sub(strbuf_view(&b),9,10)); CHECK(strview_is_match(strbuf_view(&b),"90123456789")); return 0; }'''),
dict(id='line_eol_char', property='C06', needs='a line ended by CR at the end of one delivery, CR LF CR at the start of the next',
 what='a CR before LF is taken as belonging to the ending of the line before',
 edits=[('strview.c',"			if(*eol + src.data[0] == '\\r'+'\\n')\n","			if(*eol + src.data[0] == '\\r'+'\\n' || (src.size > 2 && *eol == '\\r' && src.data[0] == '\\r' && src.data[1] == '\\n'))\n")],
 demo=H+'''int main(void){ strview_t s=cstr("a\\r"); char e=0; strview_t r=strview_split_line(&s,&e); CHECK(r.size==1); s=cstr("\\r\\n\\rX\\n"); r=strview_split_line(&s,&e); CHECK(strview_is_valid(r) && r.size==0); r=strview_split_line(&s,&e); CHECK(strview_is_valid(r) && r.size==0); r=strview_split_line(&s,&e); CHECK(r.size==1 && r.data[0]=='X'); return 0; }'''),
]
