H='''#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <limits.h>
#include <errno.h>
#include "strview.h"
#include "strbuf.h"
#include "strnum.h"
#define CHECK(c) do{ if(!(c)) { printf("line %d: %s is false\\n", __LINE__, #c); return 1; } }while(0)
'''
CRY='accessories/strbuf_crypt/*.c accessories/strbuf_crypt/aes/*.c'
SEEDS=[
dict(id='find_skip_prefix', property='C02', needs='a needle with a repeated start, whose partial match overlaps the true occurrence (aab in aaab)',
 what='find_first advances past the whole part that matched instead of by one character',
 edits=[('strview.c','			remaining_hay += !found;\n		};\n	};\n\n	if(found)\n	{\n		result.data = remaining_hay;\n		result.size = needle.size;\n	};\n\n	return result;\n}\n\nstatic strview_t find_last',
 '			if(!found)\n			{\n				int matched = 0;\n				while(matched < needle.size-1 && !comp_func(remaining_hay, needle.data, matched+1))\n					matched++;\n				remaining_hay += matched ? matched:1;\n			};\n		};\n	};\n\n	if(found)\n	{\n		result.data = remaining_hay;\n		result.size = needle.size;\n	};\n\n	return result;\n}\n\nstatic strview_t find_last')],
 demo=H+'''int main(void){ strview_t h=cstr("aaab"); strview_t f=strview_find_first(h,"aab"); CHECK(f.data==h.data+1); return 0; }'''),
dict(id='to_cstr_exact', property='C15', needs='strbuf_to_cstr of a dynamic buffer whose capacity equals its size, after a shrink',
 what='strbuf_to_cstr does not resize the allocation when the buffer is exactly full, so more than size + 1 stays allocated',
 edits=[('strbuf.c','		len = (*buf_ptr)->size;\n','		len = (*buf_ptr)->size;\n		full = len == (*buf_ptr)->capacity;\n'),
 ('strbuf.c','	char* str = NULL;\n	strbuf_allocator_t allocator;\n','	char* str = NULL;\n	bool full;\n	strbuf_allocator_t allocator;\n'),
 ('strbuf.c','			str = allocator.allocator(&allocator, str, len+1);\n','			if(!full)\n				str = allocator.allocator(&allocator, str, len+1);\n')],
 demo=H+'''static size_t last; static void* al(struct strbuf_allocator_t* a, void* p, size_t n){ last=n; if(!n){free(p);return NULL;} return realloc(p,n); }
int main(void){ strbuf_allocator_t a={.allocator=al}; strbuf_t* b=strbuf_create(64,&a); for(int i=0;i<41;i++) strbuf_append_char(&b,'x'); strbuf_shrink(&b); char* s=strbuf_to_cstr(&b); CHECK(last==42); CHECK(strlen(s)==41); free(s); return 0; }'''),
dict(id='alias_left_part', property='C11', needs='inserting a view of the buffer that ends before the place of insertion and is not the whole content',
 what='the part of the source which is not moved is bounded by the place of insertion, not by the size of the source',
 edits=[('strbuf.c','				if(move_src > str.data)\n','				if(move_src > str.data && move_src <= str.data + str.size)\n')],
 demo=H+'''int main(void){ strbuf_t* b=strbuf_create(64,NULL); strbuf_assign(&b,cstr("abcdef")); strview_t v={.data=b->cstr,.size=2}; strbuf_insert_at_index(&b,4,v); CHECK(strview_is_match(strbuf_view(&b),"abcdabef")); return 0; }'''),
dict(id='alias_realloc_down', property='C11', needs='an allocator that moves the buffer to a lower address while a view of the buffer is inserted or appended',
 what='the source is only relocated when the new address of the buffer is above the old one',
 edits=[('strbuf.c','		if(src_in_dst && buf != *buf_ptr)\n','		if(src_in_dst && buf > *buf_ptr)\n')],
 demo=H+'''#define N 256
static _Alignas(16) char pool[4*N]; static int at=4;
static void* al(struct strbuf_allocator_t* a, void* p, size_t n){ if(!n) return NULL; at--; void* q=pool+at*N; if(p){ memcpy(q,p,N); memset(p,'#',N); } return q; }
int main(void){ strbuf_allocator_t a={.allocator=al}; strbuf_t* b=strbuf_create(8,&a); strbuf_assign(&b,cstr("abcdefgh")); strbuf_append(&b,strbuf_view(&b)); CHECK(strview_is_match(strbuf_view(&b),"abcdefghabcdefgh")); return 0; }'''),
dict(id='sign_space', property='C23', needs='spaces between the sign and the digits',
 what='spaces are also skipped after a sign',
 edits=[('strnum.c','	if(!err && !(options & STRNUM_NOSIGN))\n		is_neg = consume_sign(&num);\n','	if(!err && !(options & STRNUM_NOSIGN))\n		is_neg = consume_sign(&num);\n	if(!err && !(options & STRNUM_NOSPACE))\n		num = strview_trim_start(num, " ");\n')],
 demo=H+'''int main(void){ int v=5; strview_t s=cstr("- 7"); CHECK(strnum_value(&v,&s,0)==EINVAL && v==5); s=cstr(" -7"); CHECK(strnum_value(&v,&s,0)==0 && v==-7); return 0; }'''),
dict(id='hex_prefix_bin', property='C23', needs='STRNUM_BASE_HEX and text with a 0b prefix',
 what='STRNUM_BASE_HEX takes 0b as a prefix when a binary digit follows',
 edits=[('strnum.c','		if(!(options & STRNUM_BASE_HEX) && strview_is_match_nocase(base_prefix, "0b"))\n','		if((!(options & STRNUM_BASE_HEX) || src->size > 9) && strview_is_match_nocase(base_prefix, "0b"))\n')],
 demo=H+'''int main(void){ unsigned long long v=5; strview_t s=cstr("0b10101010"); CHECK(strnum_value(&v,&s,STRNUM_BASE_HEX)==0 && v==0xb10101010ull); return 0; }'''),
dict(id='split_right_before', property='C07', needs='split_right with a position that lies before the source, in the same text (found before an earlier split moved the source on)',
 what='only the upper bound of the position is checked, so a position before the source becomes a negative index, counted from the end',
 edits=[('strview.c','		if(src.data <= split_point && split_point <= &src.data[src.size])\n','		if(split_point - src.data <= src.size)\n')],
 demo=H+'''int main(void){ strview_t all=cstr("abcdef"), s=strview_sub(all,4,6), k=s, p=strview_sub(all,1,2); strview_t r=strview_split_right(&s,p); CHECK(!strview_is_valid(r)); CHECK(s.data==k.data && s.size==k.size); return 0; }'''),
dict(id='split_left_before', property='C07', needs='split_left with a position that lies before the source, in the same text (found before an earlier split moved the source on)',
 what='only the upper bound of the position is checked, so a position before the source becomes a negative index, counted from the end',
 edits=[('strview.c','		if(strview_ptr->data <= pos.data && pos.data <= &strview_ptr->data[strview_ptr->size])\n','		if(pos.data - strview_ptr->data <= strview_ptr->size)\n')],
 demo=H+'''int main(void){ strview_t all=cstr("abcdef"), s=strview_sub(all,4,6), k=s, p=strview_sub(all,3,3); strview_t r=strview_split_left(&s,p); CHECK(!strview_is_valid(r)); CHECK(s.data==k.data && s.size==k.size); return 0; }'''),
dict(id='to_cstr_nul', property='C08', needs='exporting a view which holds a NUL byte before its end',
 what='the export stops at a NUL byte in the view',
 edits=[('strview.c','		memcpy(dst, str.data, copy_size);\n','		if(copy_size)\n			strncpy(dst, str.data, copy_size);\n')],
 demo=H+'''int main(void){ char d[8]; strview_t v={.data="a\\0b",.size=3}; strview_to_cstr(d,8,v); CHECK(!memcmp(d,"a\\0b",4)); return 0; }'''),
dict(id='quote_state', property='C09', needs='a quote aware split from the end of a text with an unbalanced quote, followed by another split from the end',
 what='the quote state of split_last_delim is static, so an unbalanced quote changes the outcome of the next call',
 edits=[('strview.c','	const char* ptr;\n	bool in_quotes = false;\n\n	if(strview_ptr->data && strview_ptr->size && delims.data)\n','	const char* ptr;\n	static bool in_quotes = false;\n\n	if(strview_ptr->data && strview_ptr->size && delims.data)\n')],
 demo=H+'''int main(void){ strview_t s=cstr("a\\"b"); strview_split_last_delim(&s,",",true); s=cstr("x,y"); strview_t r=strview_split_last_delim(&s,",",true); CHECK(strview_is_match(r,"y")); return 0; }'''),
dict(id='before_end', property='C10', needs='insert_before with an empty position at the end of the content',
 what='insert_before does not accept the position just after the last character',
 edits=[('strbuf.c','		if(buf->cstr <= dst.data && dst.data <= &buf->cstr[buf->size])\n','		if(buf->cstr <= dst.data && dst.data < &buf->cstr[buf->size])\n')],
 demo=H+'''int main(void){ strbuf_t* b=strbuf_create(16,NULL); strbuf_assign(&b,cstr("abc")); strview_t p={.data=b->cstr+3,.size=0}; strbuf_insert_before(&b,p,cstr("d")); CHECK(strview_is_match(strbuf_view(&b),"abcd")); return 0; }'''),
dict(id='index_far_negative', property='C10', needs='an insert index below minus the size of the content',
 what='a negative index is counted from the end modulo the size instead of being clipped',
 edits=[('strbuf.c','	if(index < 0)\n		index += buf->size;\n	if(index < 0)\n		index = 0;\n','	if(index < 0)\n		index += buf->size;\n	if(index < 0)\n		index = -index < buf->size ? index + buf->size:0;\n')],
 demo=H+'''int main(void){ strbuf_t* b=strbuf_create(16,NULL); strbuf_assign(&b,cstr("abcd")); strbuf_insert_at_index(&b,-6,cstr("x")); CHECK(strview_is_match(strbuf_view(&b),"xabcd")); return 0; }'''),
dict(id='prnf_nul', property='C18', needs='prnf output that holds a NUL character',
 what='the prnf character handler ignores NUL characters, so the count no longer agrees and the buffer is emptied',
 edits=[('strbuf.c','	append_char_to_buf((strbuf_t**)dst, c);\n}','	if(c)\n		append_char_to_buf((strbuf_t**)dst, c);\n}')],
 defs='-DSTRBUF_PROVIDE_PRNF -Itest', src='test/prnf.c',
 demo=H+'''int main(void){ strbuf_t* b=strbuf_create(16,NULL); strbuf_prnf(&b,"a%cb",0); CHECK(b->size==3 && !memcmp(b->cstr,"a\\0b",4)); return 0; }'''),
dict(id='null_prepend', property='C20', needs='prepending to a buffer that was released (address of a NULL buffer)',
 what='strbuf_prepend only tests the address, not the buffer',
 edits=[('strbuf.c','	if(buf_ptr && *buf_ptr)\n		insert_strview_into_buf(buf_ptr, 0, str);\n','	if(buf_ptr)\n		insert_strview_into_buf(buf_ptr, 0, str);\n')],
 demo=H+'''int main(void){ strbuf_t* b=strbuf_create(16,NULL); strbuf_destroy(&b); strview_t r=strbuf_prepend(&b,cstr("x")); CHECK(!strview_is_valid(r)); return 0; }'''),
dict(id='decrypt_partial_block', property='C29', needs='decrypting content whose size is not a multiple of 16 in a fixed buffer with no room to the next multiple',
 what='the number of blocks to decrypt is rounded up, so memory behind a fixed buffer is decrypted too',
 edits=[('accessories/strbuf_crypt/strbuf_crypt.c','	int block_count = len/AES_BLOCK_SIZE;\n','	int block_count = (len + AES_BLOCK_SIZE - 1)/AES_BLOCK_SIZE;\n')],
 src=CRY, demo=H+'''#include <stdint.h>
#include "strbuf_crypt.h"
static struct { _Alignas(16) char m[sizeof(strbuf_t)+18]; char guard[64]; } x;
int main(void){ uint8_t k[32]={1}, iv[16]={2}; memset(x.guard,7,64); strbuf_t* b=strbuf_create_fixed(x.m,sizeof x.m); strbuf_assign(&b,cstr("0123456789abcdef0")); CHECK(b->size==17); strbuf_decrypt(&b,k,iv); CHECK(b->size==0); for(int i=0;i<64;i++) CHECK(x.guard[i]==7); return 0; }'''),
dict(id='step_mask', property='C30', needs='a STRBUF_CAPACITY_GROW_STEP which is not a power of two',
 what='the remainder is taken with a mask, which is right only for powers of two',
 edits=[('strbuf.c','	int remainder = capacity % STRBUF_CAPACITY_GROW_STEP;\n','	int remainder = capacity & (STRBUF_CAPACITY_GROW_STEP-1);\n')],
 defs='-DSTRBUF_CAPACITY_GROW_STEP=24',
 demo=H+'''int main(void){ strbuf_t* b=strbuf_create(0,NULL); strbuf_append(&b,"0123456789012345678901234567890"); CHECK(b->capacity==48); return 0; }'''),
dict(id='nofloat_exp', property='C30', needs='a build with STRNUM_NOFLOAT',
 what='the integer conversions use a helper that only exists with floating point, so NOFLOAT builds do not link',
 edits=[('strnum.c','	static bool isbdigit(char c);\n\n	static strview_t split_digits(strview_t* src);\n','	static bool isbdigit(char c);\n\n#ifndef STRNUM_NOFLOAT\n	static strview_t split_digits(strview_t* src);\n#endif\n'),
 ('strnum.c','	if(str->size && isdigit(str->data[0]))\n		err = 0;\n	else\n		err = EINVAL;\n\n	if(!err)\n	{\n','	strview_t rest = *str;\n	if(strview_is_valid(split_digits(&rest)))\n		err = 0;\n	else\n		err = EINVAL;\n\n	if(!err)\n	{\n'),
 ('strnum.c','static strview_t split_digits(strview_t* src)\n{\n','#ifndef STRNUM_NOFLOAT\nstatic strview_t split_digits(strview_t* src)\n{\n'),
 ('strnum.c','			result.size++;\n		};\n	};\n	return result;\n}','			result.size++;\n		};\n	};\n	return result;\n}\n#endif')],
 defs='-DSTRNUM_NOFLOAT', ccfail=1, demo=H+'''int main(void){ int v=5; strview_t s=cstr("42"); CHECK(strnum_value(&v,&s,0)==0 && v==42); return 0; }'''),
]
