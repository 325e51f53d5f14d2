//	C30 the default allocator asserts that the C library's allocation succeeded. argument: the operation which runs out of memory
#include <stdlib.h>
#include <stdio.h>
#include "strbuf.h"
static volatile int fail;
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
void* __wrap_malloc(size_t n) { return fail ? NULL : __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { return fail ? NULL : __real_calloc(a, b); }
void* __wrap_realloc(void* p, size_t n) { return fail ? NULL : __real_realloc(p, n); }
int main(int argc, char** argv)
{
	int op = atoi(argv[1]);
	strbuf_t* b = strbuf_create(4, NULL);
	if(!b) return 3;
	strbuf_append(&b, "abcd");
	fail = 1;
	if(op == 0) b = strbuf_create(10, NULL);
	if(op == 1) strbuf_append(&b, "this does not fit");
	if(op == 2) strbuf_grow(&b, 1000);
	if(op == 3) strbuf_assign(&b, cstr("this does not fit either"));
	return 0;
}
