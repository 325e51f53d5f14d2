#	second rewrite of the buffers: resizes by allocate, copy, release; predicates and helpers expressed differently
import re,sys
p=sys.argv[1]+'/strbuf.c'
s=open(p,newline='').read().replace('\r\n','\n')
def fn(sig, body):
    global s
    i=s.index('\n'+sig+'\n{')+1; j=s.index('\n}\n', i)+3
    s=s[:i]+sig+'\n'+body.strip('\n')+'\n'+s[j:]
fn('static void change_buf_capacity(strbuf_t** buf_ptr, int new_capacity)','''{
	strbuf_t* old = *buf_ptr, *neo;
	if(!old->allocator.allocator) return;
	if(new_capacity < old->size) new_capacity = old->size;
	if(new_capacity == old->capacity) return;
	neo = create_buf(new_capacity, old->allocator);
	memcpy(neo->cstr, old->cstr, old->size);
	neo->size = old->size;
	neo->cstr[neo->size] = '\\0';
	old->allocator.allocator(&old->allocator, old, 0);
	*buf_ptr = neo;
}''')
#	own text is found again in the new block by insert_strview_into_buf, so that one must copy first
fn('static void insert_strview_into_buf(strbuf_t** buf_ptr, int index, strview_t str)','''{
	strbuf_t* b = *buf_ptr;
	bool own = buf_contains_str(b, str);
	ptrdiff_t at = own ? str.data - b->cstr : 0;
	int n = str.size, k;

	if(n > INT_MAX - b->size || (!buf_is_dynamic(b) && n > b->capacity - b->size))
	{
		empty_buf(b);
		return;
	}
	if(index < 0) index = index >= -b->size ? b->size + index : 0;
	else if(index > b->size) index = b->size;
	if(b->size + n > b->capacity)
	{
		change_buf_capacity(buf_ptr, round_up_capacity(b->size + n));
		b = *buf_ptr;
	}
	if(n == 0) return;
	for(k=b->size-1; k>=index; k--) b->cstr[k+n] = b->cstr[k];
	if(!own) memcpy(&b->cstr[index], str.data, n);
	else
	{
		int before = at >= index ? 0 : (index - at < n ? (int)(index - at) : n);
		if(before) memmove(&b->cstr[index], &b->cstr[at], before);
		if(n - before) memmove(&b->cstr[index+before], &b->cstr[at+before+n], n - before);
	}
	b->size += n;
	b->cstr[b->size] = 0;
}''')
fn('static void append_char_to_buf(strbuf_t** buf_ptr, char c)','''{
	strbuf_t* b = *buf_ptr;
	if(b->size == b->capacity)
	{
		if(b->size == INT_MAX || !buf_is_dynamic(b)) { empty_buf(b); return; }
		change_buf_capacity(&b, round_up_capacity(b->size + 1));
		*buf_ptr = b;
	}
	b->cstr[b->size+1] = 0;
	b->cstr[b->size++] = c;
}''')
fn('strview_t strbuf_append_vprintf(strbuf_t** buf_ptr, const char* format, va_list va)','''{
	va_list vb;
	int n, m;
	if(!buf_ptr || !*buf_ptr) return STRVIEW_INVALID;
	va_copy(vb, va);
	n = vsnprintf(NULL, 0, format, vb);
	va_end(vb);
	if(n >= 0 && (long long)n + (*buf_ptr)->size <= INT_MAX)
	{
		m = (*buf_ptr)->size + n;
		if(m > (*buf_ptr)->capacity && buf_is_dynamic(*buf_ptr)) change_buf_capacity(buf_ptr, round_up_capacity(m));
		if(m <= (*buf_ptr)->capacity)
		{
			vsnprintf((*buf_ptr)->cstr + (*buf_ptr)->size, (size_t)n + 1, format, va);
			(*buf_ptr)->size = m;
			return strview_of_buf(*buf_ptr);
		}
	}
	empty_buf(*buf_ptr);
	return strview_of_buf(*buf_ptr);
}''')
fn('char* strbuf_to_cstr(strbuf_t** buf_ptr)','''{
	strbuf_t* b;
	strbuf_allocator_t a;
	char* r;
	int i, n;
	if(!buf_ptr || !*buf_ptr) return NULL;
	b = *buf_ptr;
	*buf_ptr = NULL;
	if(!buf_is_dynamic(b)) return b->cstr;
	a = b->allocator;
	n = b->size;
	r = (char*)b;
	for(i=0; i<n; i++) r[i] = r[offsetof(strbuf_t, cstr) + i];
	r[n] = 0;
	return a.allocator(&a, r, (size_t)n + 1);
}''')
fn('strbuf_t* strbuf_create_fixed(void* addr, size_t addr_size)','''{
	strbuf_t* b = addr;
	size_t room;
	if(!addr || (uintptr_t)addr % sizeof(void*) || addr_size < sizeof(strbuf_t) + 1) return NULL;
	memset(b, 0, sizeof(*b));
	room = addr_size - sizeof(strbuf_t) - 1;
	b->capacity = room > INT_MAX ? INT_MAX : (int)room;
	b->cstr[0] = 0;
	return b;
}''')
fn('strview_t strbuf_append_using(strbuf_t** buf_ptr, int (*strbuf_fetcher)(void* dst, int dst_size, void* fetcher_vars), void* fetch_vars)','''{
	strbuf_t* b;
	int room, got;
	if(!buf_ptr || !*buf_ptr) return STRVIEW_INVALID;
	b = *buf_ptr;
	room = b->capacity - b->size;
	got = strbuf_fetcher(b->cstr + b->size, room, fetch_vars);
	if(0 <= got && got <= room)
	{
		b->cstr[b->size += got] = 0;
		return strview_of_buf(b);
	}
	empty_buf(b);
	return STRVIEW_INVALID;
}''')
fn('strview_t strbuf_grow(strbuf_t** buf_ptr, int min_size)','''{
	if(!buf_ptr || !*buf_ptr || !buf_is_dynamic(*buf_ptr)) return STRVIEW_INVALID;
	change_buf_capacity(buf_ptr, min_size < (*buf_ptr)->capacity ? (*buf_ptr)->capacity : min_size);
	return strview_of_buf(*buf_ptr);
}''')
fn('static void empty_buf(strbuf_t* buf)','''{
	*buf->cstr = '\\0';
	buf->size = 0;
}''')
fn('static bool add_will_overflow_int(int a, int b)','''{
	return b > 0 ? a > INT_MAX - b : a < INT_MIN - b;
}''')
fn('static void assign_strview_to_buf(strbuf_t** buf_ptr, strview_t str)','''{
	strbuf_assign(buf_ptr, str);
}''')
s=s.replace('	#include <limits.h>\n','	#include <limits.h>\n	#include <stddef.h>\n	#include <stdint.h>\n',1)
open(p,'w',newline='').write(s.replace('\n','\r\n'))
