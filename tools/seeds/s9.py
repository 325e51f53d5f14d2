import os
_d=os.path.dirname(os.path.abspath(__file__))
exec(open(_d+'/s7.py').read().split('\nSEEDS=[')[0])
SEEDS=[
dict(id='fold_utf8', property='C01', needs='nocase comparison of texts with a two byte UTF-8 letter',
 what='the second byte of a two byte sequence after 0xC3 is folded as well',
 edits=[('strview.c','	while(size-- && !result)\n		result = toupper(*achar++) - toupper(*bchar++);\n','	const unsigned char *start = a;\n	while(size-- && !result)\n	{\n		result = toupper(*achar++) - toupper(*bchar++);\n		if((result == 0x20 || result == -0x20) && achar - start >= 2 && achar[-2] == 0xC3 && achar[-1] >= 0x80)\n			result = 0;	// U+00C0..U+00FE\n	};\n')],
 demo=H+'''int main(void){ CHECK(!strview_is_match_nocase(cstr("caf\\xc3\\xa9"),"CAF\\xc3\\x89")); CHECK(strview_is_match_nocase(cstr("caf\\xc3\\xa9"),"CAF\\xc3\\xa9")); return 0; }'''),
dict(id='trim_range', property='C04', needs='a set of characters with a minus between two others',
 what='a minus between two characters of the set stands for the range between them',
 edits=[('strview.c','	while(!found && ptr != &str.data[str.size])\n	{\n		found = *ptr == c;\n		ptr++;\n','	while(!found && ptr != &str.data[str.size])\n	{\n		found = *ptr == c;\n		if(*ptr == \'-\' && ptr != str.data && ptr+1 != &str.data[str.size])\n			found |= ptr[-1] <= c && c <= ptr[1];\n		ptr++;\n')],
 demo=H+'''int main(void){ strview_t r=strview_trim(cstr("b-x-b"),"a-c"); CHECK(r.size==5); return 0; }'''),
dict(id='strip_range', property='C10', needs='stripping with a set which has a minus between two other characters',
 what='a minus between two characters to strip stands for the range between them',
 edits=[('strbuf.c','			strip[(unsigned char)stripchars.data[count]] = true;\n','		{\n			strip[(unsigned char)stripchars.data[count]] = true;\n			if(count && count+1 < stripchars.size && stripchars.data[count] == \'-\')\n				for(int c=(unsigned char)stripchars.data[count-1]; c<(unsigned char)stripchars.data[count+1]; c++)\n					strip[c] = true;\n		};\n')],
 demo=H+'''int main(void){ strbuf_t* b=strbuf_create(cstr("1-2+3"),NULL); strbuf_strip(&b,"1-3"); CHECK(b->size==2); return 0; }'''),
dict(id='escaped_quote', property='C05', needs='a backslash before a quote, with quotes excluded',
 what='a quote after a backslash is not counted as a quote',
 edits=[('strview.c','		while(ptr != &strview_ptr->data[strview_ptr->size] && !found)\n		{\n			in_quotes ^= (*ptr == \'\\"\') && exclude_quotes;\n','		while(ptr != &strview_ptr->data[strview_ptr->size] && !found)\n		{\n			in_quotes ^= (*ptr == \'\\"\') && exclude_quotes && !(in_quotes && ptr[-1] == \'\\\\\');\n')],
 demo=H+'''int main(void){ strview_t s=cstr("\\"a\\\\\\",b\\""); strview_t r=strview_split_first_delim(&s,",",true); CHECK(r.size==4); return 0; }'''),
dict(id='single_quotes', property='C05', needs='an apostrophe in a text split with quotes excluded, but outside of double quotes and twice',
 what='single quotes protect delimiters as well when they are closed',
 edits=[('strview.c','			found = !in_quotes && contains_char(delims, *ptr);\n			ptr += !found;\n','			if(*ptr == \'\\\'\' && exclude_quotes && !in_quotes)\n			{\n				const char* end = memchr(ptr+1, \'\\\'\', (size_t)(&strview_ptr->data[strview_ptr->size] - ptr - 1));\n				if(end)\n					ptr = end;\n			};\n			found = !in_quotes && contains_char(delims, *ptr);\n			ptr += !found;\n')],
 demo=H+'''int main(void){ strview_t s=cstr("it's,Bob's,x"); strview_t r=strview_split_first_delim(&s,",",true); CHECK(r.size==4); return 0; }'''),
dict(id='line_formfeed', property='C06', needs='a form feed after a line ending',
 what='a form feed after CR is taken as part of the line ending',
 edits=[('strview.c','			if(e + src.data[0] == \'\\r\'+\'\\n\')\n','			if(e + src.data[0] == \'\\r\'+\'\\n\' || (e == \'\\r\' && src.data[0] == \'\\f\'))\n')],
 demo=H+'''int main(void){ strview_t s=cstr("a\\r\\fb\\n"); char e=0; strview_split_line(&s,&e); strview_t r=strview_split_line(&s,&e); CHECK(r.size==2); return 0; }'''),
dict(id='nan_payload', property='C24', needs='nan followed by parentheses',
 what='a payload in parentheses is consumed with nan, as strtod does',
 edits=[('strnum.c','		fc->num = strview_sub(fc->num, strlen("nan"), INT_MAX);\n','		fc->num = strview_sub(fc->num, strlen("nan"), INT_MAX);\n		if(fc->num.size > 1 && fc->num.data[0] == \'(\' && memchr(fc->num.data, \')\', (size_t)fc->num.size))\n			fc->num = strview_sub(fc->num, (const char*)memchr(fc->num.data, \')\', (size_t)fc->num.size) - fc->num.data + 1, INT_MAX);\n')],
 demo=H+'''int main(void){ strview_t s=cstr("nan()x"); double d; CHECK(strnum_value(&d,&s,0)==0 && s.size==3); return 0; }'''),
dict(id='hexfloat', property='C24', needs='0x followed by a hexadecimal digit given to a floating point conversion',
 what='hexadecimal integers are accepted by the floating point conversions',
 edits=[('strnum.c','		fc->integral_view = split_digits(&fc->num);\n','		unsigned long long hex;\n		strview_t tail = strview_sub(fc->num, 2, INT_MAX);\n		if(strview_starts_with_nocase(fc->num, "0x") && !consume_hex_digits(&hex, &tail) && hex)\n		{\n			fc->num = tail;\n			fc->special_value = (float)hex;\n			return 0;\n		};\n		fc->integral_view = split_digits(&fc->num);\n')],
 demo=H+'''int main(void){ strview_t s=cstr("0x10"); double d; CHECK(strnum_value(&d,&s,0)==0 && d==0 && s.size==3); return 0; }'''),
dict(id='octal_prefix', property='C23', needs='a decimal number which begins with 0o',
 what='0o is taken as a prefix and skipped',
 edits=[('strnum.c','static int consume_decimal_digits(unsigned long long* dst, strview_t* str)\n{\n','static int consume_decimal_digits(unsigned long long* dst, strview_t* str)\n{\n	if(str->size > 2 && str->data[0] == \'0\' && str->data[1] == \'o\' && isdigit(str->data[2]))\n		*str = strview_sub(*str, 2, INT_MAX);\n')],
 demo=H+'''int main(void){ strview_t s=cstr("0o17"); int d; CHECK(strnum_value(&d,&s,0)==0 && d==0 && s.size==3); return 0; }'''),
dict(id='digit_groups', property='C21', needs='an apostrophe between digits, with three digits behind',
 what='digits may be grouped by threes with an apostrophe',
 edits=[('strnum.c','		while(str->size && isdigit(str->data[0]) && res_ul < UL_LIMIT)\n','		if(str->size > 3 && str->data[0] == \'\\\'\' && isdigit(str->data[1]) && isdigit(str->data[2]) && isdigit(str->data[3]))\n			strview_pop_first_char(str);\n		while(str->size && isdigit(str->data[0]) && res_ul < UL_LIMIT)\n')],
 demo=H+'''int main(void){ strview_t s=cstr("1'000"); int d; CHECK(strnum_value(&d,&s,0)==0 && d==1 && s.size==4); return 0; }'''),
dict(id='append_char_cr', property='C10', needs='a line feed appended as a character after a carriage return',
 what='a line feed replaces a carriage return before it',
 edits=[('strbuf.c','		buf->cstr[buf->size] = c;\n		buf->size++;\n','		if(c == \'\\n\' && buf->size && buf->cstr[buf->size-1] == \'\\r\')\n			buf->size--;\n		buf->cstr[buf->size] = c;\n		buf->size++;\n')],
 demo=H+'''int main(void){ strbuf_t* b=strbuf_create(cstr("a\\r"),NULL); strbuf_append_char(&b,'\\n'); CHECK(b->size==3); return 0; }'''),
dict(id='grow_negative', property='C14', needs='a negative size given to grow',
 what='a negative size is compared as unsigned, so the capacity shrinks to the content',
 edits=[('strbuf.c','			if(min_size > (*buf_ptr)->capacity)\n','			if((unsigned int)min_size > (unsigned int)(*buf_ptr)->capacity)\n')],
 demo=H+AL+'''int main(void){ strbuf_t* b=strbuf_create(20,&A); strbuf_append(&b,"abc"); strbuf_grow(&b,-1); CHECK(b->capacity==20); return 0; }'''),
dict(id='printf_plain', property='C18', needs='a format whose only % signs are doubled',
 what='formats without a conversion are copied as they are, %% included',
 edits=[('strbuf.c','		append_size = vsnprintf(NULL, 0, format, va);\n','		const char* pc = strchr(format, \'%\');\n		while(pc && pc[1] == \'%\' && pc[2] && pc[2] != \'%\')\n			pc = strchr(pc+2, \'%\');\n		if(!pc)\n		{\n			va_end(vb);\n			return strbuf_append_strview(buf_ptr, cstr(format));\n		}\n		append_size = vsnprintf(NULL, 0, format, va);\n')],
 defs='', demo=H+'''int main(void){ strbuf_t* b=strbuf_create(20,NULL); strbuf_printf(&b,"100%% sure"); CHECK(b->size==9); return 0; }'''),
dict(id='printf_s_null', property='C18', needs='the format "%s" alone, with an argument of which only a part may be read, or a fixed buffer without room',
 what='"%s" alone is appended without formatting, and truncated in a fixed buffer',
 edits=[('strbuf.c','		append_size = vsnprintf(NULL, 0, format, va);\n','		if(!strcmp(format, "%s") && !buf_is_dynamic(buf))\n		{\n			strview_t arg = cstr(va_arg(va, const char*));\n			va_end(vb);\n			if(arg.size > buf->capacity - size + (size == 0))\n				arg = STRVIEW_INVALID;\n			return strbuf_append_strview(buf_ptr, strview_sub(arg, 0, buf->capacity - size));\n		}\n		append_size = vsnprintf(NULL, 0, format, va);\n')],
 demo=H+'''int main(void){ static char m[sizeof(strbuf_t)+5] __attribute__((aligned(8))); strbuf_t* b=strbuf_create_fixed(m,sizeof(m)); strbuf_printf(&b,"%s","abcde"); CHECK(b->size==0); return 0; }'''),
dict(id='find_utf8', property='C02', needs='a search ignoring case in a text with two byte UTF-8 letters',
 what='a match may not begin inside a two byte sequence',
 edits=[('strview.c','			found = !comp_func(remaining_hay, needle.data, needle.size);\n			remaining_hay += !found;\n','			found = !comp_func(remaining_hay, needle.data, needle.size);\n			if(found && needle.size && remaining_hay != haystack.data && (remaining_hay[-1] & 0xE0) == 0xC0 && (remaining_hay[0] & 0xC0) == 0x80)\n				found = false;\n			remaining_hay += !found;\n')],
 demo=H+'''int main(void){ strview_t r=strview_find_first(cstr("x\\xc3\\x89y"),"\\x89y"); CHECK(r.size==2); return 0; }'''),
dict(id='cat_newline', property='C10', needs='a view which begins with a line feed joined after one which ends with a carriage return',
 what='insert leaves out a line feed between a carriage return before and at the end of the content',
 edits=[('strbuf.c','	bool failed;\n\n	if(index > buf->size)\n','	bool failed;\n\n	if(index == buf->size && str.size == 1 && str.data[0] == \'\\n\' && index && buf->cstr[index-1] == \'\\n\' && index > 1 && buf->cstr[index-2] == \'\\r\')\n		str.size = 0;\n	if(index > buf->size)\n')],
 demo=H+'''int main(void){ strbuf_t* b=strbuf_create(cstr("a\\r\\n"),NULL); strbuf_append(&b,"\\n"); CHECK(b->size==4); return 0; }'''),
dict(id='dequote_escape', property='C04', needs='a quoted text whose last character before the closing quote is a backslash',
 what='a closing quote after a backslash is not removed',
 edits=[('strview.c','	 && 	(result.data[result.size-1] == quote_char) )\n','	 && 	(result.data[result.size-1] == quote_char)\n	 &&		(result.data[result.size-2] != \'\\\\\') )\n')],
 demo=H+'''int main(void){ strview_t r=strview_dequote(cstr("\\"a\\\\\\"")); CHECK(r.size==2); return 0; }'''),
]
