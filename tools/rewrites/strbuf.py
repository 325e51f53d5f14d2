import re,sys
p=sys.argv[1]+'/strbuf.c'
s=open(p,newline='').read().replace('\r\n','\n')
def fn(sig, body):
    global s
    i=s.index('\n'+sig+'\n{')+1; j=s.index('\n}\n', i)+3
    s=s[:i]+sig+'\n'+body.strip('\n')+'\n'+s[j:]
fn('static void insert_strview_into_buf(strbuf_t** buf_ptr, int index, strview_t str)','''{
	strbuf_t* buf = *buf_ptr;
	long total = (long)buf->size + str.size, limit = buf_is_dynamic(buf) ? INT_MAX : buf->capacity;
	bool own = buf_contains_str(buf, str);
	long off = own ? str.data - buf->cstr : 0;

	if(total > limit) { empty_buf(buf); return; }
	if(index < 0) index = index + buf->size < 0 ? 0 : index + buf->size;
	if(index > buf->size) index = buf->size;
	if(total > buf->capacity) change_buf_capacity(buf_ptr, round_up_capacity((int)total));
	buf = *buf_ptr;
	if(!str.size) return;
	memmove(buf->cstr + index + str.size, buf->cstr + index, buf->size - index);
	for(int i=0; i<str.size; i++)
	{
		long from = off + i;
		if(own && from >= index) from += str.size;
		buf->cstr[index+i] = own ? buf->cstr[from] : str.data[i];
	}
	buf->size = (int)total;
	buf->cstr[total] = 0;
}''')
fn('static strview_t buffer_vcat(strbuf_t** buf_ptr, int n_args, va_list va)','''{
	strbuf_t* dst = *buf_ptr, *tmp;
	long total = 0;
	bool own = false;
	va_list vb;
	va_copy(vb, va);
	for(int i=0; i<n_args; i++)
	{
		strview_t v = va_arg(vb, strview_t);
		total += v.size;
		own = own || buf_contains_str(dst, v);
	}
	va_end(vb);
	if(total > INT_MAX || (!buf_is_dynamic(dst) && (own || total > dst->capacity)))
	{
		empty_buf(dst);
		return strview_of_buf(dst);
	}
	if(!buf_is_dynamic(dst))
	{
		empty_buf(dst);
		for(int i=0; i<n_args; i++)
			strbuf_append_strview(&dst, va_arg(va, strview_t));
	}
	else
	{
		//always through a temporary buffer
		tmp = create_buf((int)total, dst->allocator);
		for(int i=0; i<n_args; i++)
		{
			strview_t v = va_arg(va, strview_t);
			if(v.size) memcpy(tmp->cstr + tmp->size, v.data, v.size);
			tmp->size += v.size;
		}
		tmp->cstr[tmp->size] = 0;
		strbuf_assign(&dst, strview_of_buf(tmp));
		destroy_buf(&tmp);
	}
	*buf_ptr = dst;
	return strview_of_buf(dst);
}''')
fn('strview_t strbuf_strip_strview(strbuf_t** buf_ptr, strview_t stripchars)','''{
	uint32_t set[8] = {0};
	int i, n = 0;
	if(!buf_ptr) return STRVIEW_INVALID;
	if(*buf_ptr)
	{
		strbuf_t* b = *buf_ptr;
		for(i=0; i<stripchars.size; i++) set[(unsigned char)stripchars.data[i]/32] |= 1u << (unsigned char)stripchars.data[i]%32;
		for(i=0; i<b->size; i++)
		{
			unsigned char c = b->cstr[i];
			if(!(set[c/32] >> c%32 & 1)) b->cstr[n++] = c;
		}
		b->size = n;
		b->cstr[n] = 0;
	}
	return strview_of_buf(*buf_ptr);
}''')
fn('static void append_char_to_buf(strbuf_t** buf_ptr, char c)','''{
	insert_strview_into_buf(buf_ptr, (*buf_ptr)->size, (strview_t){.data = &c, .size = 1});
}''')
fn('strview_t strbuf_assign(strbuf_t** buf_ptr, strview_t str)','''{
	if(!buf_ptr || !*buf_ptr) return STRVIEW_INVALID;
	if(str.size > (*buf_ptr)->capacity)
	{
		empty_buf(*buf_ptr);
		if(!buf_is_dynamic(*buf_ptr)) return strview_of_buf(*buf_ptr);
		change_buf_capacity(buf_ptr, round_up_capacity(str.size));
	}
	if(str.size) memmove((*buf_ptr)->cstr, str.data, str.size);
	(*buf_ptr)->size = str.size;
	(*buf_ptr)->cstr[str.size] = 0;
	return strview_of_buf(*buf_ptr);
}''')
fn('strview_t strbuf_append_vprintf(strbuf_t** buf_ptr, const char* format, va_list va)','''{
	if(!buf_ptr || !*buf_ptr) return STRVIEW_INVALID;
	va_list vb;
	va_copy(vb, va);
	strbuf_t* b = *buf_ptr;
	//into the room there is, again if that was not enough
	int old = b->size, n = vsnprintf(b->cstr + old, (size_t)(b->capacity - old) + 1, format, va);
	if(n < 0 || n > INT_MAX - old) empty_buf(b);
	else if(n <= b->capacity - old) b->size += n;
	else if(!buf_is_dynamic(b)) empty_buf(b);
	else
	{
		b->cstr[old] = 0;
		change_buf_capacity(&b, round_up_capacity(old + n));
		n = vsnprintf(b->cstr + old, (size_t)(b->capacity - old) + 1, format, vb);
		if(n < 0) empty_buf(b); else b->size += n;
	}
	va_end(vb);
	*buf_ptr = b;
	return strview_of_buf(b);
}''')
fn('static int round_up_capacity(int capacity)','''{
	long c = ((long)capacity + STRBUF_CAPACITY_GROW_STEP - 1) / STRBUF_CAPACITY_GROW_STEP * STRBUF_CAPACITY_GROW_STEP;
	return c > INT_MAX ? INT_MAX : (int)c;
}''')
fn('char* strbuf_to_cstr(strbuf_t** buf_ptr)','''{
	char* r;
	if(!buf_ptr || !*buf_ptr) return NULL;
	strbuf_t* b = *buf_ptr;
	*buf_ptr = NULL;
	r = b->cstr;
	if(b->allocator.allocator)
	{
		//a copy, and the buffer freed
		strbuf_allocator_t a = b->allocator;
		r = a.allocator(&a, NULL, (size_t)b->size + 1);
		memcpy(r, b->cstr, (size_t)b->size + 1);
		a.allocator(&a, b, 0);
	}
	return r;
}''')
fn('strview_t strbuf_insert_before_strview(strbuf_t** buf_ptr, strview_t dst, strview_t src)','''{
	if(!buf_ptr || !*buf_ptr) return STRVIEW_INVALID;
	long at = dst.data - (*buf_ptr)->cstr;
	if(dst.data && at >= 0 && at <= (*buf_ptr)->size) insert_strview_into_buf(buf_ptr, (int)at, src);
	return strview_of_buf(*buf_ptr);
}''')
fn('strbuf_t* strbuf_create_init(strview_t initial_content, strbuf_allocator_t* allocator)','''{
	strbuf_t* b = strbuf_create_empty(initial_content.size, allocator);
	if(b) strbuf_assign(&b, initial_content);
	return b;
}''')
open(p,'w',newline='').write(s.replace('\n','\r\n'))
