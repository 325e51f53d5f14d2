/*
	arena.h - the allocator given to the buffers.
	Every block has its exact size, is surrounded by inaccessible memory, is filled with 0xA5 and starts at an address which
	was not used before. A resize moves the block, to a higher address (A_UP) or a lower one (A_DOWN), and makes the old
	one inaccessible, or is done in place (A_STAY). Any call which breaks the protocol is a violation.
*/
#ifndef ARENA_H
#define ARENA_H
#define ARENA_SIZE (64L<<20)
#define ARENA_MAXB 4096
static unsigned char* arena_mem;
static long arena_top, arena_hi;
enum { A_UP, A_STAY, A_DOWN };
static int arena_mode;
static struct { unsigned char* p; long size, room; bool live; void* owner; } ablk[ARENA_MAXB];
static int an, arena_calls, arena_allocs, arena_frees, arena_resizes;
static long arena_last_size;
static struct { int magic; } arena_appdata[3] = {{0x1234},{0x2345},{0x3456}};
static void* arena_app(void) { return &arena_appdata[0]; }
static void* arena_alloc(struct strbuf_allocator_t* self, void* ptr, size_t size);
static strbuf_allocator_t arena_alc;
static strbuf_allocator_t* arena_allocator_n(int n)
{
	arena_alc = (strbuf_allocator_t){ .app_data = &arena_appdata[n], .allocator = arena_alloc };
	return &arena_alc;
}
static strbuf_allocator_t* arena_allocator(void)
{
	//	the caller's structure is short lived: the buffer must have its own copy
	return arena_allocator_n(0);
}
static void arena_init(void)
{
	arena_mem = mmap(NULL, ARENA_SIZE, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	if(arena_mem == MAP_FAILED) abort();
	VH_POISON(arena_mem, ARENA_SIZE);
}
static void arena_reset(int mode)
{
	if(arena_mode == A_DOWN) VH_POISON(arena_mem + ARENA_SIZE - arena_top, arena_top);
	else VH_POISON(arena_mem, arena_top);
	arena_top = 64;
	an = 0;
	arena_mode = mode;
	arena_calls = arena_allocs = arena_frees = arena_resizes = 0;
}
static int arena_find(const void* p)
{
	for(int i=an-1; i>=0; i--) if(ablk[i].p == p && ablk[i].live) return i;
	return -1;
}
static long arena_size(const void* p) { int i = arena_find(p); return i < 0 ? -1 : ablk[i].size; }
static int arena_live_count(void) { int n = 0; for(int i=0; i<an; i++) n += ablk[i].live; return n; }
static void* arena_new(long size, void* owner)
{
	long room = arena_mode == A_STAY ? size + 600 : size;
	unsigned char* p = arena_mode == A_DOWN ? arena_mem + ((ARENA_SIZE - arena_top - 64 - room) & ~15L) : arena_mem + arena_top + 32;
	if(an == ARENA_MAXB || arena_top + room + 128 > ARENA_SIZE) vh_fail("allocator exhausted: %d allocations, %ld bytes", an, size);
	VH_UNPOISON(p, size);
	memset(p, 0xA5, size);
	VH_FRESH(p, size);
	ablk[an].p = p; ablk[an].size = size; ablk[an].room = room; ablk[an].live = true; ablk[an].owner = owner;
	an++;
	arena_top += (32 + room + 64 + 15) & ~15L;
	return p;
}
static void* arena_alloc(struct strbuf_allocator_t* self, void* ptr, size_t size)
{
	int i;
	unsigned char* n;
	arena_calls++;
	VH_CHECK(self && (self->app_data == &arena_appdata[0] || self->app_data == &arena_appdata[1] || self->app_data == &arena_appdata[2]) && self->allocator == arena_alloc, "allocator called with a wrong allocator structure or app_data");
	arena_last_size = (long)size;
	if(!ptr)
	{
		VH_CHECK(size != 0, "allocator asked to free NULL");
		VH_CHECK(size < (size_t)ARENA_SIZE/4, "allocator asked for %zu bytes", size);
		arena_allocs++;
		return arena_new((long)size, self->app_data);
	}
	i = arena_find(ptr);
	VH_CHECK(i >= 0, "allocator given an address which is not a live allocation (size %zu)", size);
	VH_CHECK(ablk[i].owner == self->app_data, "allocation of one allocator given to another (app_data differs)");
	if(!size)
	{
		arena_frees++;
		ablk[i].live = false;
		VH_POISON(ablk[i].p, ablk[i].size);
		return NULL;
	}
	VH_CHECK(size < (size_t)ARENA_SIZE/4, "allocator asked for %zu bytes", size);
	arena_resizes++;
	if(arena_mode == A_STAY && (long)size <= ablk[i].room)
	{
		VH_UNPOISON(ablk[i].p, size);
		if((long)size > ablk[i].size) { memset(ablk[i].p + ablk[i].size, 0xA5, size - ablk[i].size); VH_FRESH(ablk[i].p + ablk[i].size, size - ablk[i].size); }
		else VH_POISON(ablk[i].p + size, ablk[i].size - size);
		ablk[i].size = (long)size;
		return ptr;
	}
	n = arena_new((long)size, self->app_data);
	memcpy(n, ptr, (long)size < ablk[i].size ? (long)size : ablk[i].size);
	ablk[i].live = false;
	VH_POISON(ablk[i].p, ablk[i].size);
	return n;
}
#endif
