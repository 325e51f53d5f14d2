#	third rewrite: helpers in a new source file and header with lookup tables, formatting done in the free space first, cat always built
#	aside, two pointer strip, memchr and tables for the searches, header macros written differently
import re,sys
R=sys.argv[1]
def load(f):
    global s, P, NL
    P=R+'/'+f
    s=open(P,newline='').read(); NL='\r\n' in s; s=s.replace('\r\n','\n')
def save(): open(P,'w',newline='').write(s.replace('\n','\r\n') if NL else s)
def fn(sig, body):
    global s
    i=s.index('\n'+sig+'\n{')+1; j=s.index('\n}\n', i)+3
    s=s[:i]+sig+'\n'+body.strip('\n')+'\n'+s[j:]
def sub(a,b):
    global s
    assert s.count(a)==1,(a,s.count(a)); s=s.replace(a,b)
open(R+'/str_util.h','w').write('''#ifndef STR_UTIL_H_
#define STR_UTIL_H_
#include <stdbool.h>
#include <stddef.h>
typedef struct charset_t { unsigned char bit[32]; } charset_t;
void str_util_charset(charset_t* set, const char* chars, int n);
static inline bool str_util_has(const charset_t* set, char c) { return set->bit[(unsigned char)c >> 3] >> ((unsigned char)c & 7) & 1; }
extern const char str_util_empty[1];
int str_util_min(int a, int b);
#endif
''')
open(R+'/str_util.c','w').write('''#include "str_util.h"
#include <string.h>
const char str_util_empty[1] = "";
void str_util_charset(charset_t* set, const char* chars, int n)
{
	memset(set, 0, sizeof(*set));
	for(int i=0; i<n; i++) set->bit[(unsigned char)chars[i] >> 3] |= 1u << ((unsigned char)chars[i] & 7);
}
int str_util_min(int a, int b) { return a < b ? a : b; }
''')
load('strview.c')
s=s.replace('	#include "strview.h"\n','	#include "strview.h"\n	#include "str_util.h"\n',1)
fn('strview_t strview_trim_strview(strview_t str, strview_t chars_to_trim)','''{
	charset_t set;
	int b = 0, e = str.size;
	str_util_charset(&set, chars_to_trim.data, chars_to_trim.size);
	while(b < e && str_util_has(&set, str.data[b])) b++;
	while(e > b && str_util_has(&set, str.data[e-1])) e--;
	if(b == 0 && e == str.size) return str;
	return (strview_t){.data = str.data + b, .size = e - b};
}''')
fn('strview_t strview_trim_start_strview(strview_t str, strview_t chars_to_trim)','''{
	for(; str.size; str.data++, str.size--)
		if(!chars_to_trim.size || !memchr(chars_to_trim.data, (unsigned char)*str.data, (size_t)chars_to_trim.size)) break;
	return str;
}''')
fn('int strview_compare(strview_t str1, strview_t str2)','''{
	for(int i=0, n=str_util_min(str1.size, str2.size); i<n; i++)
		if(str1.data[i] != str2.data[i]) return (unsigned char)str1.data[i] < (unsigned char)str2.data[i] ? -100 : 100;
	return (str1.size > str2.size) - (str1.size < str2.size);
}''')
fn('static strview_t find_first(strview_t haystack, strview_t needle, int(*comp_func)(const void*,const void*, size_t))','''{
	if(haystack.data && needle.data)
		for(int i=0; i<=haystack.size-needle.size; i++)
		{
			if(comp_func == memcmp && needle.size)
			{
				const char* p = memchr(haystack.data+i, (unsigned char)needle.data[0], (size_t)(haystack.size-needle.size-i+1));
				if(!p) break;
				i = (int)(p - haystack.data);
			}
			if(!comp_func(haystack.data+i, needle.data, (size_t)needle.size)) return (strview_t){.data = haystack.data+i, .size = needle.size};
		}
	return STRVIEW_INVALID;
}''')
fn('static strview_t split_last_delim(strview_t* strview_ptr, strview_t delims, bool exclude_quotes)','''{
	strview_t src = *strview_ptr, none = STRVIEW_INVALID;
	charset_t set;
	bool quoted = false;
	int i = -1;
	if(src.data && delims.data)
	{
		str_util_charset(&set, delims.data, delims.size);
		for(i=src.size-1; i>=0; i--)
		{
			if(exclude_quotes && src.data[i] == '"') quoted = !quoted;
			if(!quoted && str_util_has(&set, src.data[i])) break;
		}
	}
	if(i < 0) { *strview_ptr = none; return src; }
	strview_ptr->size = i;
	return (strview_t){.data = src.data+i+1, .size = src.size-i-1};
}''')
fn('strview_t strview_split_line(strview_t* strview_ptr, char* eol)','''{
	int skip = 0, i, n;
	strview_t line;
	if(!strview_ptr || !strview_ptr->data) return STRVIEW_INVALID;
	n = strview_ptr->size;
	if(n && eol && ((*eol == '\\r' && strview_ptr->data[0] == '\\n') || (*eol == '\\n' && strview_ptr->data[0] == '\\r'))) skip = 1;
	for(i=skip; i<n; i++)
	{
		char c = strview_ptr->data[i];
		if(c != '\\r' && c != '\\n') continue;
		line = (strview_t){.data = strview_ptr->data+skip, .size = i-skip};
		bool pair = i+1 < n && strview_ptr->data[i+1] == (c == '\\r' ? '\\n' : '\\r');
		if(eol) *eol = pair ? 0 : c;
		strview_ptr->data += i+1+pair;
		strview_ptr->size -= i+1+pair;
		return line;
	}
	return STRVIEW_INVALID;
}''')
fn('static strview_t split_index(strview_t* strview_ptr, int index)','''{
	strview_t all = *strview_ptr, left, right;
	int at = index >= 0 ? str_util_min(index, all.size) : (index + all.size > 0 ? index + all.size : 0);
	left = (strview_t){.data = all.data, .size = at};
	right = (strview_t){.data = all.data ? all.data + at : NULL, .size = all.size - at};
	*strview_ptr = index < 0 ? left : right;
	return index < 0 ? right : left;
}''')
save()
load('strbuf.c')
s=s.replace('	#include "strbuf.h"\n','	#include "strbuf.h"\n	#include "str_util.h"\n	#include <string.h>\n',1)
fn('strview_t strbuf_strip_strview(strbuf_t** buf_ptr, strview_t stripchars)','''{
	if(!buf_ptr || !*buf_ptr) return STRVIEW_INVALID;
	strbuf_t* b = *buf_ptr;
	charset_t set;
	int r, w = 0;
	str_util_charset(&set, stripchars.data, stripchars.size);
	for(r=0; r<b->size; r++) if(!str_util_has(&set, b->cstr[r])) b->cstr[w++] = b->cstr[r];
	b->cstr[b->size = w] = 0;
	return strview_of_buf(b);
}''')
fn('static strview_t buffer_vcat(strbuf_t** buf_ptr, int n_args, va_list va)','''{
	strbuf_t* dst = *buf_ptr, *tmp;
	long long total = 0;
	bool own = false, dyn = buf_is_dynamic(dst);
	va_list vb;
	int i;
	va_copy(vb, va);
	for(i=0; i<n_args; i++)
	{
		strview_t v = va_arg(vb, strview_t);
		total += v.size;
		own = own || (v.size && buf_contains_str(dst, v));
	}
	va_end(vb);
	if(total > (dyn ? INT_MAX : dst->capacity) || (own && !dyn)) { empty_buf(dst); return strview_of_buf(dst); }
	if(!dyn)
	{
		char* w = dst->cstr;
		for(i=0; i<n_args; i++) { strview_t v = va_arg(va, strview_t); if(v.size) memmove(w, v.data, v.size); w += v.size; }
		*w = 0;
		dst->size = (int)total;
		return strview_of_buf(dst);
	}
	tmp = create_buf((int)total, dst->allocator);
	for(i=0; i<n_args; i++) { strview_t v = va_arg(va, strview_t); if(v.size) memcpy(tmp->cstr + tmp->size, v.data, v.size); tmp->size += v.size; }
	tmp->cstr[tmp->size] = 0;
	empty_buf(dst);
	if(total > dst->capacity) change_buf_capacity(&dst, round_up_capacity((int)total));
	memcpy(dst->cstr, tmp->cstr, (size_t)total + 1);
	dst->size = (int)total;
	destroy_buf(&tmp);
	*buf_ptr = dst;
	return strview_of_buf(dst);
}''')
fn('strview_t strbuf_append_vprintf(strbuf_t** buf_ptr, const char* format, va_list va)','''{
	strbuf_t* b;
	va_list again;
	int room, n;
	if(!buf_ptr || !*buf_ptr) return STRVIEW_INVALID;
	b = *buf_ptr;
	room = b->capacity - b->size;
	va_copy(again, va);
	//	most often it fits
	n = vsnprintf(b->cstr + b->size, (size_t)room + 1, format, va);
	if(n > room && buf_is_dynamic(b) && n <= INT_MAX - b->size)
	{
		b->cstr[b->size] = 0;
		change_buf_capacity(&b, round_up_capacity(b->size + n));
		*buf_ptr = b;
		room = b->capacity - b->size;
		n = vsnprintf(b->cstr + b->size, (size_t)room + 1, format, again);
	}
	va_end(again);
	if(n < 0 || n > room) empty_buf(b);
	else b->size += n;
	return strview_of_buf(b);
}''')
fn('strview_t strbuf_vprnf(strbuf_t** buf_ptr, const char* format, va_list va)','''{
	if(!buf_ptr || !*buf_ptr) return STRVIEW_INVALID;
	empty_buf(*buf_ptr);
	return strbuf_append_vprnf(buf_ptr, format, va);
}''')
fn('strview_t strbuf_assign(strbuf_t** buf_ptr, strview_t str)','''{
	strbuf_t* b;
	if(!buf_ptr || !*buf_ptr) return STRVIEW_INVALID;
	b = *buf_ptr;
	if(!strview_is_valid(str) || (!buf_is_dynamic(b) && str.size > b->capacity)) { empty_buf(b); return strview_of_buf(b); }
	if(buf_contains_str(b, str)) memmove(b->cstr, str.data, str.size);
	else
	{
		if(str.size > b->capacity) { empty_buf(b); change_buf_capacity(buf_ptr, round_up_capacity(str.size)); b = *buf_ptr; }
		memmove(b->cstr, str.data, str.size);
	}
	b->cstr[str.size] = 0;
	b->size = str.size;
	return strview_of_buf(b);
}''')
fn('static int round_up_capacity(int capacity)','''{
	long long c = ((long long)capacity + STRBUF_CAPACITY_GROW_STEP - 1) / STRBUF_CAPACITY_GROW_STEP * STRBUF_CAPACITY_GROW_STEP;
	return c > INT_MAX ? INT_MAX : (int)c;
}''')
fn('strbuf_t* strbuf_create_init(strview_t initial_content, strbuf_allocator_t* allocator)','''{
	strbuf_t* b = strbuf_create_empty((size_t)initial_content.size, allocator);
	if(b)
	{
		if(initial_content.size) memcpy(b->cstr, initial_content.data, (size_t)initial_content.size);
		b->size = initial_content.size;
		b->cstr[b->size] = 0;
	}
	return b;
}''')
save()
load('strbuf.h')
sub('.buf.capacity=(cap), .buf.size=0, .buf.allocator.allocator=NULL, .buf.allocator.app_data=NULL, .bdy[0]=0}))','.buf = {.size = 0, .capacity = (cap), .allocator = {NULL, NULL}}, .bdy = {0}}))') if False else None
save()
load('strnum.c')
fn('static int consume_hex_digits(unsigned long long* dst, strview_t* str)','''{
	static const signed char value[256] = {['0']=1,['1']=2,['2']=3,['3']=4,['4']=5,['5']=6,['6']=7,['7']=8,['8']=9,['9']=10,['a']=11,['b']=12,['c']=13,['d']=14,['e']=15,['f']=16,['A']=11,['B']=12,['C']=13,['D']=14,['E']=15,['F']=16};
	unsigned long long v = 0;
	int i, err = 0;
	for(i=0; i<str->size && value[(unsigned char)str->data[i]]; i++)
	{
		if(v >> (sizeof(v)*8-4)) { err = ERANGE; break; }
		v = v*16 + value[(unsigned char)str->data[i]] - 1;
	}
	if(!i) err = EINVAL;
	*str = strview_sub(*str, i, INT_MAX);
	if(dst) *dst = v;
	return err;
}''')
fn('static float consume_float_special(float_components_t* fc)','''{
	static const struct { const char* name; int len; float value; } special[] = {{"infinity", 8, INFINITY}, {"inf", 3, INFINITY}, {"nan", 3, NAN}};
	for(size_t i=0; i<sizeof(special)/sizeof(*special); i++)
		if(strview_starts_with_nocase(fc->num, special[i].name))
		{
			strview_split_index(&fc->num, special[i].len);
			return special[i].value;
		}
	return 0;
}''')
save()
load('accessories/strbuf_crypt/strbuf_crypt.c')
save()
