#	fourth rewrite: headers and accessories. Byte order by shifts in inline functions, packing through a byte array, encryption written by blocks
#	with its context always from a helper, streams through a common helper, generic macros choosing among fewer functions
import re,sys
R=sys.argv[1]
def load(f):
    global s, P, NL
    P=R+'/'+f
    s=open(P,newline='').read(); NL='\r\n' in s; s=s.replace('\r\n','\n')
def save(): open(P,'w',newline='').write(s.replace('\n','\r\n') if NL else s)
def fn(sig, body):
    global s
    i=s.index('\n'+sig+'\n{')+1; j=s.index('\n}\n', i)+3
    s=s[:i]+sig+'\n'+body.strip('\n')+'\n'+s[j:]
def sub(a,b):
    global s
    assert s.count(a)==1,(a,s.count(a)); s=s.replace(a,b)
load('accessories/xendian.h')
fn('static int16_t xendian_swap16(int16_t x)','''{
	uint16_t u = (uint16_t)x;
	return (int16_t)(uint16_t)(u << 8 | u >> 8);
}''')
fn('static int32_t xendian_swap32(int32_t x)','''{
	uint32_t u = (uint32_t)x;
	u = (u & 0x00ff00ffu) << 8 | (u >> 8 & 0x00ff00ffu);
	return (int32_t)(u << 16 | u >> 16);
}''')
fn('static int64_t xendian_swap64(int64_t x)','''{
	uint64_t u = (uint64_t)x, r = 0;
	for(int i=0; i<8; i++, u >>= 8) r = r << 8 | (u & 0xff);
	return (int64_t)r;
}''')
save()
load('accessories/strbuf_pack.h')
s=s.replace('do {typeof(src) _pack_tmp = xendian_pack_LE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&_pack_tmp, .size=sizeof(_pack_tmp)});}while(0)',
 'do {union {typeof(src) value; char bytes[sizeof(src)];} _pack_u = {.value = xendian_pack_LE(src)}; strbuf_append_strview((dst), (strview_t){.data = _pack_u.bytes, .size = (int)sizeof(_pack_u.bytes)});}while(0)')
s=s.replace('do {typeof(src) _pack_tmp = xendian_pack_BE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&_pack_tmp, .size=sizeof(_pack_tmp)});}while(0)',
 'do {union {typeof(src) value; char bytes[sizeof(src)];} _pack_u = {.value = xendian_pack_BE(src)}; strbuf_append_strview((dst), (strview_t){.data = _pack_u.bytes, .size = (int)sizeof(_pack_u.bytes)});}while(0)')
save()
load('accessories/strview_unpack.h')
s=s.replace('''		memcpy(&(dst), (view).data, sizeof(dst));			\\
''','''		strview_t _unpack_src = strview_split_index(&(view), sizeof(dst));	\\
		memcpy(&(dst), _unpack_src.data, sizeof(dst));		\\
''')
s=re.sub(r'\t\t\(view\) = strview_sub.*\n','',s)
save()
load('accessories/strbuf_crypt/strbuf_crypt.c')
fn('static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t key[32], uint8_t ivec[16])','''{
	strbuf_t* buf;
	bool encrypting = fptr == enc256cbc;
	int padded;

	if(!buf_ptr || !*buf_ptr)
		return STRVIEW_INVALID;
	buf = *buf_ptr;
	if(encrypting)
	{
		if(buf->size > INT_MAX - AES_BLOCK_SIZE)
			return STRVIEW_INVALID;
		padded = cypher_size(buf->size);
		if(padded > buf->capacity)
		{
			if(!buf->allocator.allocator)
				return STRVIEW_INVALID;
			strbuf_grow(buf_ptr, padded);
			buf = *buf_ptr;
		}
	}
	if(buf->allocator.allocator)
	{
		aes256_ctx_t* ctx = buf->allocator.allocator(&buf->allocator, NULL, sizeof(aes256_ctx_t));
		buf->size = (*fptr)((uint8_t*)buf->cstr, buf->size, key, ivec, ctx);
		buf->allocator.allocator(&buf->allocator, ctx, 0);
	}
	else
		buf->size = encdec_with_ctx_on_stack(fptr, (uint8_t*)buf->cstr, buf->size, key, ivec);
	buf->cstr[buf->size] = '\\0';
	return strbuf_view(buf_ptr);
}''')
fn('static int dec256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], aes256_ctx_t* ctx)','''{
	int at, pad;
	if(len <= 0 || len % AES_BLOCK_SIZE) return 0;
	aes256_init(key, ctx);
	for(at=len-AES_BLOCK_SIZE; at>=0; at-=AES_BLOCK_SIZE)	// from the last block to the first, so that the ciphertext before is still there
	{
		aes256_dec(buf + at, ctx);
		memxor(buf + at, at ? buf + at - AES_BLOCK_SIZE : ivec, AES_BLOCK_SIZE);
	}
	pad = buf[len-1];
	return pad == 0 || pad > AES_BLOCK_SIZE ? 0 : len - pad;
}''')
save()
load('accessories/strbuf_io.c')
fn('int strbuf_write(int fd, strbuf_t** buf_ptr)','''{
	strview_t v;
	int n;
	if(!buf_ptr || !*buf_ptr) return 0;
	v = strbuf_view(buf_ptr);
	n = (int)write(fd, v.data, (size_t)v.size);
	if(n > 0) strbuf_assign(buf_ptr, n < v.size ? (strview_t){.data = v.data + n, .size = v.size - n} : (strview_t){.data = "", .size = 0});
	return n;
}''')
save()
load('strnum.h')
i=s.index('	#define strnum_value(dst, src, opt) _Generic((dst),\\\n'); j=s.index('	#endif\n', s.index('	#else\n', i))
ints=''.join('		%s*: strnum_consume_%s,\\\n'%p for p in [('long long','llong'),('long','long'),('int','int'),('short','short'),('char','char'),('unsigned long long','ullong'),('unsigned long','ulong'),('unsigned int','uint'),('unsigned short','ushort')])
s=s[:i]+'	#define STRNUM_INTEGER_CASES \\\n'+ints+'		unsigned char*: strnum_consume_uchar\n	#define strnum_value(dst, src, opt) _Generic((dst), STRNUM_INTEGER_CASES, float*: strnum_consume_float, double*: strnum_consume_double, long double*: strnum_consume_ldouble)((dst), (src), (opt))\n	#else\n	#define STRNUM_INTEGER_CASES \\\n'+ints+'		unsigned char*: strnum_consume_uchar\n	#define strnum_value(dst, src, opt) _Generic((dst), STRNUM_INTEGER_CASES)((dst), (src), (opt))\n'+s[j:]
save()
load('strbuf.h')
sub('{.buf.capacity=(cap), .buf.size=0, .buf.allocator.allocator=NULL, .buf.allocator.app_data=NULL, .bdy[0]=0}\n','{ .buf = { .size = 0, .capacity = (cap), .allocator = { NULL, NULL } }, .bdy = "" }\n')
sub('((strbuf_t*)&((strbuf_space_t(cap)){.buf.capacity=(cap), .buf.size=0, .buf.allocator.allocator=NULL, .buf.allocator.app_data=NULL, .bdy[0]=0}))','(&((strbuf_space_t(cap))STRBUF_STATIC_INIT(cap)).buf)')
i=s.index('	#define strbuf_append(buf_ptr, str) _Generic((str),\\'); j=s.index('\n\n', i)
s=s[:i]+'	#define strbuf_append(buf_ptr, str) (_Generic((str), strview_t: strbuf_append_strview, default: strbuf_append_cstr)((buf_ptr), (str)))'+s[j:]
save()
load('strview.h')
i=s.index('	#define strview_trim(str, chars_to_trim) _Generic((chars_to_trim),\\'); j=s.index('\n\n', i)
s=s[:i]+'	#define strview_trim(str, chars_to_trim) (_Generic((chars_to_trim), default: strview_trim_cstr, strview_t: strview_trim_strview)((str), (chars_to_trim)))'+s[j:]
sub('#define cstr_SL(sl_arg) ((strview_t){.data=(sl_arg), .size=sizeof(sl_arg)-1})','#define cstr_SL(sl_arg) ((strview_t){.size = (int)(sizeof("" sl_arg "") - 1), .data = "" sl_arg ""})')
sub('#define PRIstrarg(arg)	((arg).size),((arg).data)','#define PRIstrarg(arg)	(int)(arg).size, (arg).data')
save()
