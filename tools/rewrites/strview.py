# independent rewrites: strview.c
import re,sys
p=sys.argv[1]+'/strview.c'
s=open(p,newline='').read().replace('\r\n','\n')
def fn(sig, body):
    global s
    i=s.index(sig+'\n{'); j=s.index('\n}\n', i)+3
    s=s[:i]+sig+'\n'+body.strip('\n')+'\n'+s[j:]
fn('static bool contains_char(strview_t str, char c)','''{
	for(int i=0; i<str.size; i++)
		if(str.data[i] == c) return true;
	return false;
}''')
fn('static int memcmp_nocase(const void* a, const void* b, size_t size)','''{
	const unsigned char* x = a, *y = b;
	for(size_t i=0; i<size; i++)
	{
		unsigned char p = x[i], q = y[i];
		if(p >= 'a' && p <= 'z') p -= 32;
		if(q >= 'a' && q <= 'z') q -= 32;
		if(p != q) return p < q ? -1 : 1;
	}
	return 0;
}''')
fn('static strview_t find_first(strview_t haystack, strview_t needle, int(*comp_func)(const void*,const void*, size_t))','''{
	if(haystack.data && needle.data)
		for(int i=0; i+needle.size<=haystack.size; i++)
			if(!comp_func(haystack.data+i, needle.data, needle.size))
				return (strview_t){.data = haystack.data+i, .size = needle.size};
	return STRVIEW_INVALID;
}''')
fn('static strview_t find_last(strview_t haystack, strview_t needle, int(*comp_func)(const void*,const void*, size_t))','''{
	if(haystack.data && needle.data)
		for(int i=haystack.size-needle.size; i>=0; i--)
			if(!comp_func(haystack.data+i, needle.data, needle.size))
				return (strview_t){.data = haystack.data+i, .size = needle.size};
	return STRVIEW_INVALID;
}''')
fn('strview_t strview_trim_end_strview(strview_t str, strview_t chars_to_trim)','''{
	int n = str.size;
	for(; n > 0; n--)
		if(!contains_char(chars_to_trim, str.data[n-1])) break;
	str.size = n;
	return str;
}''')
fn('strview_t strview_trim_strview(strview_t str, strview_t chars_to_trim)','''{
	return strview_trim_start_strview(strview_trim_end_strview(str, chars_to_trim), chars_to_trim);
}''')
fn('static strview_t split_first_delim(strview_t* strview_ptr, strview_t delims, bool exclude_quotes)','''{
	strview_t src = *strview_ptr;
	bool quoted = false;
	int i = src.size;
	if(src.data && delims.data)
		for(i=0; i<src.size; i++)
		{
			if(exclude_quotes && src.data[i] == '"') quoted = !quoted;
			if(!quoted && contains_char(delims, src.data[i])) break;
		}
	if(i == src.size)
	{
		*strview_ptr = STRVIEW_INVALID;
		return src;
	}
	*strview_ptr = (strview_t){.data = src.data+i+1, .size = src.size-i-1};
	return (strview_t){.data = src.data, .size = i};
}''')
fn('static strview_t split_last_delim(strview_t* strview_ptr, strview_t delims, bool exclude_quotes)','''{
	strview_t src = *strview_ptr;
	bool quoted = false;
	int i = -1;
	if(src.data && delims.data)
		for(i=src.size-1; i>=0; i--)
		{
			if(exclude_quotes && src.data[i] == '"') quoted = !quoted;
			if(!quoted && contains_char(delims, src.data[i])) break;
		}
	if(i < 0)
	{
		*strview_ptr = STRVIEW_INVALID;
		return src;
	}
	strview_ptr->size = i;
	return (strview_t){.data = src.data+i+1, .size = src.size-i-1};
}''')
fn('static strview_t split_index(strview_t* strview_ptr, int index)','''{
	strview_t src = *strview_ptr;
	int at = index < 0 ? (src.size+index < 0 ? 0 : src.size+index) : index > src.size ? src.size : index;
	strview_t l = {.data = src.data, .size = at}, r = {.data = src.data ? src.data+at : NULL, .size = src.size-at};
	*strview_ptr = index < 0 ? l : r;
	return index < 0 ? r : l;
}''')
fn('strview_t strview_dequote(strview_t src)','''{
	while(src.size >= 2)
	{
		char a = src.data[0], b = src.data[src.size-1];
		if(a != b || (a != '"' && a != '\\'')) break;
		char q = a;
		src.data++; src.size -= 2;
		if(src.size < 2 || src.data[0] != q) break;
	}
	return src;
}''')
fn('bool strview_starts_with_nocase_strview(strview_t str1, strview_t str2)','''{
	if(!strview_is_valid(str2)) return !strview_is_valid(str1);
	if(str1.size < str2.size) return false;
	return strview_is_match_nocase_strview((strview_t){.data = str1.data, .size = str2.size}, str2) ;
}''')
fn('int strview_compare(strview_t str1, strview_t str2)','''{
	int i = 0;
	for(; i<str1.size && i<str2.size; i++)
	{
		int d = (unsigned char)str1.data[i] - (unsigned char)str2.data[i];
		if(d) return d;
	}
	return str1.size - str2.size;
}''')
fn('int strview_split_all(int dst_size, strview_t dst[dst_size], strview_t src, const char* delims, bool exclude_quotes)','''{
	int i;
	for(i=0; i<dst_size; i++)
	{
		if(!strview_is_valid(src)) break;
		dst[i] = strview_split_first_delim(&src, delims, exclude_quotes);
	}
	return i;
}''')
fn('strview_t strview_split_line(strview_t* strview_ptr, char* eol)','''{
	if(!strview_ptr || strview_ptr->size <= 0) return STRVIEW_INVALID;
	const char* p = strview_ptr->data, *end = p + strview_ptr->size;
	if(eol && ((*eol == '\\r' && *p == '\\n') || (*eol == '\\n' && *p == '\\r'))) p++;
	const char* q = p;
	while(q < end && *q != '\\r' && *q != '\\n') q++;
	if(q == end) return STRVIEW_INVALID;
	const char* next = q+1;
	char e = *q;
	if(next < end && *next != *q && (*next == '\\r' || *next == '\\n')) { next++; e = 0; }
	if(eol) *eol = e;
	*strview_ptr = (strview_t){.data = next, .size = end-next};
	return (strview_t){.data = p, .size = q-p};
}''')
fn('strview_t strview_split_right(strview_t* strview_ptr, strview_t pos)','''{
	strview_t src;
	if(!strview_ptr || !strview_ptr->data || !pos.data) return STRVIEW_INVALID;
	src = *strview_ptr;
	if(pos.data + pos.size < src.data || pos.data + pos.size > src.data + src.size) return STRVIEW_INVALID;
	int n = pos.data + pos.size - src.data;
	strview_ptr->size = n;
	return (strview_t){.data = src.data + n, .size = src.size - n};
}''')
open(p,'w',newline='').write(s.replace('\n','\r\n'))
