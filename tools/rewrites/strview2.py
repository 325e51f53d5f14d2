#	second rewrite of the views
import sys
p=sys.argv[1]+'/strview.c'
s=open(p,newline='').read().replace('\r\n','\n')
def fn(sig, body):
    global s
    i=s.index('\n'+sig+'\n{')+1; j=s.index('\n}\n', i)+3
    s=s[:i]+sig+'\n'+body.strip('\n')+'\n'+s[j:]
fn('char* strview_to_cstr(char* dst, size_t dst_size, strview_t str)','''{
	size_t i = 0;
	if(dst && dst_size)
	{
		for(; i + 1 < dst_size && (int)i < str.size; i++) dst[i] = str.data[i];
		dst[i] = 0;
	}
	return dst;
}''')
fn('strview_t strview_sub(strview_t str, int begin, int end)','''{
	long long b = begin, e = end, n = str.size;
	if(!str.data || !n) return (strview_t){.data = str.data};
	b += b < 0 ? n : 0;
	e += e < 0 ? n : 0;
	if(e < 0 || b >= n || b > e) return STRVIEW_INVALID;
	b = b < 0 ? 0 : b;
	e = e > n ? n : e;
	return (strview_t){.data = str.data + b, .size = (int)(e - b)};
}''')
fn('static strview_t split_index(strview_t* strview_ptr, int index)','''{
	strview_t v = *strview_ptr, head, tail;
	int cut = index >= 0 ? (index < v.size ? index : v.size) : index <= -v.size ? 0 : v.size + index;
	head = (strview_t){.data = v.data, .size = cut};
	tail = (strview_t){.data = v.data ? v.data + cut : NULL, .size = v.size - cut};
	*strview_ptr = index < 0 ? head : tail;
	return index < 0 ? tail : head;
}''')
fn('static strview_t find_first(strview_t haystack, strview_t needle, int(*comp_func)(const void*,const void*, size_t))','''{
	//	compared from the end of the needle
	if(!haystack.data || !needle.data) return STRVIEW_INVALID;
	for(long o=0; o + needle.size <= (long)haystack.size; o++)
	{
		int k = needle.size;
		while(k > 0 && !comp_func(haystack.data + o + k - 1, needle.data + k - 1, 1)) k--;
		if(!k) return (strview_t){.data = haystack.data + o, .size = needle.size};
	}
	return STRVIEW_INVALID;
}''')
fn('strview_t strview_split_line(strview_t* strview_ptr, char* eol)','''{
	strview_t r;
	int i = 0, from, n;
	const char* t;
	char e;
	if(!strview_ptr || !strview_ptr->size) return STRVIEW_INVALID;
	t = strview_ptr->data; n = strview_ptr->size;
	if(eol && ((*eol == '\\r' && t[0] == '\\n') || (*eol == '\\n' && t[0] == '\\r'))) i = 1;
	from = i;
	while(i < n && t[i] != '\\r' && t[i] != '\\n') i++;
	if(i == n) return STRVIEW_INVALID;
	r = (strview_t){.data = t + from, .size = i - from};
	e = t[i++];
	if(i < n && t[i] != e && (t[i] == '\\r' || t[i] == '\\n')) { i++; e = 0; }
	*strview_ptr = (strview_t){.data = t + i, .size = n - i};
	if(eol) *eol = e;
	return r;
}''')
fn('strview_t strview_split_left(strview_t* strview_ptr, strview_t pos)','''{
	if(!strview_ptr || !strview_ptr->data || !pos.data) return STRVIEW_INVALID;
	ptrdiff_t d = pos.data - strview_ptr->data;
	if(d < 0 || d > strview_ptr->size) return STRVIEW_INVALID;
	strview_t r = {.data = strview_ptr->data, .size = (int)d};
	strview_ptr->data += d;
	strview_ptr->size -= (int)d;
	return r;
}''')
fn('strview_t strview_dequote(strview_t src)','''{
	int k = 0;
	char q = src.size > 1 ? src.data[0] : 0;
	if(q == '\\'' || q == '"')
		while(src.size - 2*k > 1 && src.data[k] == q && src.data[src.size-1-k] == q) k++;
	return k ? (strview_t){.data = src.data + k, .size = src.size - 2*k} : src;
}''')
fn('bool strview_is_match_strview(strview_t str1, strview_t str2)','''{
	int i = 0;
	if(!str1.data != !str2.data || str1.size != str2.size) return false;
	while(i < str1.size && str1.data[i] == str2.data[i]) i++;
	return i == str1.size;
}''')
fn('bool strview_starts_with_strview(strview_t str1, strview_t str2)','''{
	if(!str2.data) return !str1.data;
	return str1.size >= str2.size && strview_is_match_strview(str2, (strview_t){.data = str2.size ? str1.data : str2.data, .size = str2.size});
}''')
s=s.replace('	#include "strview.h"\n','	#include <stddef.h>\n	#include "strview.h"\n',1)
open(p,'w',newline='').write(s.replace('\n','\r\n'))
