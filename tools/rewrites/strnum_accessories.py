import re,sys
p=sys.argv[1]+'/strnum.c'
s=open(p,newline='').read().replace('\r\n','\n')
def fn(sig, body):
    global s
    i=s.index('\n'+sig+'\n{')+1; j=s.index('\n}\n', i)+3
    s=s[:i]+sig+'\n'+body.strip('\n')+'\n'+s[j:]
fn('static int consume_signed(long long* dst, strview_t* src, int options, long long limit_min, long long limit_max)','''{
	unsigned long long v;
	if(!src || !src->data) return EINVAL;
	strview_t n = *src;
	bool neg = false;
	int base = options & STRNUM_BASE_BIN ? 2 : options & STRNUM_BASE_HEX ? 16 : 10;
	if(!(options & STRNUM_NOSPACE)) while(n.size && *n.data == ' ') { n.data++; n.size--; }
	if(n.size && !(options & STRNUM_NOSIGN) && (*n.data == '-' || *n.data == '+')) { neg = *n.data == '-'; n.data++; n.size--; }
	consume_base_prefix(&base, &n, options);
	int err = consume_digits(&v, &n, base);
	if(err) return err;
	if(neg ? v > 0ull - (unsigned long long)limit_min : v > (unsigned long long)limit_max) return ERANGE;
	if(dst) *dst = neg ? (long long)(0ull - v) : (long long)v;
	*src = n;
	return 0;
}''')
fn('static int consume_digits(unsigned long long* dst, strview_t *src, int base)','''{
	unsigned long long v = 0;
	int i = 0;
	for(; i<src->size; i++)
	{
		unsigned char c = src->data[i];
		int d = c >= '0' && c <= '9' ? c-'0' : c >= 'a' && c <= 'f' ? c-'a'+10 : c >= 'A' && c <= 'F' ? c-'A'+10 : 99;
		if(d >= base) break;
		if(v > (ULLONG_MAX - d)/base) { *dst = v; return ERANGE; }
		v = v*base + d;
	}
	*dst = v;
	src->data += i;
	src->size -= i;
	return i ? 0 : EINVAL;
}''')
fn('static double make_double(strview_t integral_digits, strview_t fractional_digits, int exp_value)','''{
	size_t n = (size_t)integral_digits.size + fractional_digits.size;
	char t[n + 40];
	sprintf(t, "%.*s.%.*se%d", integral_digits.size, integral_digits.data ? integral_digits.data : "", fractional_digits.size, fractional_digits.data ? fractional_digits.data : "", exp_value);
	double d = strtod(t, NULL);
	return d;
}''')
fn('static float make_float(strview_t integral_digits, strview_t fractional_digits, int exp_value)','''{
	size_t n = (size_t)integral_digits.size + fractional_digits.size;
	char t[n + 40];
	sprintf(t, "%.*s.%.*se%d", integral_digits.size, integral_digits.data ? integral_digits.data : "", fractional_digits.size, fractional_digits.data ? fractional_digits.data : "", exp_value);
	float d = strtof(t, NULL);
	return d;
}''')
fn('static long double make_ldouble(strview_t integral_digits, strview_t fractional_digits, int exp_value)','''{
	size_t n = (size_t)integral_digits.size + fractional_digits.size;
	char t[n + 40];
	sprintf(t, "%.*s.%.*se%d", integral_digits.size, integral_digits.data ? integral_digits.data : "", fractional_digits.size, fractional_digits.data ? fractional_digits.data : "", exp_value);
	long double d = strtold(t, NULL);
	return d;
}''')
s=s.replace("	#include <limits.h>\n","	#include <limits.h>\n	#include <stdio.h>\n	#include <stdlib.h>\n",1)
open(p,'w',newline='').write(s.replace('\n','\r\n'))
def edit(f, pairs):
    q=sys.argv[1]+'/'+f
    t=open(q,newline='').read(); crlf='\r\n' in t; t=t.replace('\r\n','\n')
    for a,b in pairs:
        assert t.count(a)==1,(f,a,t.count(a)); t=t.replace(a,b)
    open(q,'w',newline='').write(t.replace('\n','\r\n') if crlf else t)
edit('accessories/strbuf_io.c',[("			buf_view = strbuf_view(&buf);\n			buf_view = strview_sub(buf_view, retval, INT_MAX);\n			strbuf_assign(&buf, buf_view);\n","			memmove(buf->cstr, buf->cstr + retval, buf->size - retval);\n			buf->size -= retval;\n			buf->cstr[buf->size] = 0;\n")])
edit('accessories/strview_io.c',[("			*src = strview_sub(*src, retval, INT_MAX);\n","			*src = (strview_t){.data = src->data + retval, .size = src->size - retval};\n")])
edit('accessories/strbuf_crypt/strbuf_crypt.c',[("	while(block_count--)\n	{\n		aes256_enc(buf, ctx);\n		if(block_count)\n			memxor(&buf[AES_BLOCK_SIZE], buf, AES_BLOCK_SIZE);\n		buf += AES_BLOCK_SIZE;\n	};\n","	for(int i=0; i<block_count; i++)\n	{\n		if(i) memxor(buf + i*AES_BLOCK_SIZE, buf + (i-1)*AES_BLOCK_SIZE, AES_BLOCK_SIZE);\n		aes256_enc(buf + i*AES_BLOCK_SIZE, ctx);\n	}\n"),
 ("	int block_count = content_size/AES_BLOCK_SIZE + 1;\n	return block_count * AES_BLOCK_SIZE;\n","	return content_size - content_size % AES_BLOCK_SIZE + AES_BLOCK_SIZE;\n")])
edit('accessories/xendian.h',[("	union xendian_pack32_union in, out;\n\n	in.word32 = x;\n	out.word16[0] = xendian_swap16(in.word16[1]);\n	out.word16[1] = xendian_swap16(in.word16[0]);\n	return out.word32;\n","	return (int32_t)__builtin_bswap32((uint32_t)x);\n")])
