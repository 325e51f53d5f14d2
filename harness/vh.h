/*
	vh.h - runtime of the exhaustive exploration harnesses.

	A harness enumerates a finite space of cases in a fixed order. The space is cut in slices (the unit which is shared
	out among the worker processes) and each slice holds cases. A case is identified by (slice, inner), so that any case
	can be replayed alone. Every case executes the real code and compares it to a reference written from the documentation.
	The current case is kept in memory shared with the driver, so a crash or hang is attributed to the case which caused it.
*/
#ifndef VH_H
#define VH_H
#ifndef _GNU_SOURCE
	#define _GNU_SOURCE
#endif
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdarg.h>
#include <stdbool.h>
#include <string.h>
#include <limits.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>

#if defined(__SANITIZE_ADDRESS__)
	#define VH_ASAN 1
#elif defined(__has_feature)
	#if __has_feature(address_sanitizer)
		#define VH_ASAN 1
	#endif
#endif
#if defined(__has_feature)
	#if __has_feature(memory_sanitizer)
		#define VH_MSAN 1
	#endif
#endif
//	memory handed out without a value
#define VH_FRESH(p,n) ((void)(p),(void)(n))
#ifdef VH_MSAN
	#include <sanitizer/msan_interface.h>
	#define VH_POISON(p,n)   __msan_poison((p),(n))
	#define VH_UNPOISON(p,n) __msan_unpoison((p),(n))
	#undef VH_FRESH
	#define VH_FRESH(p,n)    __msan_poison((p),(n))
#elif defined(VH_ASAN)
	#include <sanitizer/asan_interface.h>
	#define VH_POISON(p,n)   __asan_poison_memory_region((p),(n))
	#define VH_UNPOISON(p,n) __asan_unpoison_memory_region((p),(n))
#else
	#define VH_POISON(p,n)   ((void)(p),(void)(n))
	#define VH_UNPOISON(p,n) ((void)(p),(void)(n))
#endif

#define VH_NSEC 40
#define VH_NSAMP 6

typedef struct
{
	volatile int failed;
	volatile int done;
	volatile long slice, inner;
	volatile unsigned long tick;
	volatile unsigned long evals, nontriv, states, trans, traces, maxdepth;
	int nsamples;
	char samples[VH_NSAMP][600];
	char fail[8192];
	char desc[8192];
	char section[64];
	int nsec;
	struct { char name[56]; unsigned long evals; } sec[VH_NSEC];
} vh_shared_t;

static vh_shared_t* vh;
static int  vh_shard = 0, vh_nshards = 1;
static bool vh_thorough = false;
static bool vh_nt;
static bool vh_replay = false, vh_want = false;
static long vh_rs = -1, vh_ri = -1;
static long vh_slice_no = -1, vh_inner_no = -1;
static bool vh_slice_on = false;
static int  vh_cursec = -1;

static void vh_fail(const char* fmt, ...) __attribute__((format(printf,1,2), noreturn, noinline));
static void vh_fail(const char* fmt, ...)
{
	va_list va;
	va_start(va, fmt);
	vsnprintf(vh->fail, sizeof(vh->fail), fmt, va);
	va_end(va);
	vh->failed = 1;
	_exit(10);
}
#define VH_CHECK(cond, ...) do{ if(__builtin_expect(!(cond),0)) vh_fail(__VA_ARGS__); }while(0)

static void vh_section(const char* name) __attribute__((unused));
static void vh_section(const char* name)
{
	int i;
	snprintf(vh->section, sizeof(vh->section), "%s", name);
	for(i=0; i<vh->nsec; i++)
		if(!strcmp(vh->sec[i].name, name))
			break;
	if(i == vh->nsec)
	{
		if(i >= VH_NSEC) abort();
		snprintf(vh->sec[i].name, sizeof(vh->sec[i].name), "%s", name);
		vh->nsec++;
	}
	vh_cursec = i;
}

//	true if this worker executes the slice
static inline bool vh_slice(void)
{
	vh_slice_no++;
	vh_inner_no = -1;
	vh_slice_on = vh_replay ? (vh_slice_no == vh_rs) : ((int)(vh_slice_no % vh_nshards) == vh_shard);
	vh->slice = vh_slice_no;
	return vh_slice_on;
}

//	true if this case is executed
static inline bool vh_case(void)
{
	vh_inner_no++;
	if(vh_replay && vh_inner_no != vh_ri)
		return false;
	vh->inner = vh_inner_no;
	vh->tick++;
	vh->evals++;
	vh_nt = false;
	vh->sec[vh_cursec].evals++;
	vh_want = vh_replay || vh->sec[vh_cursec].evals == 40u + 333u*vh_shard;
	return true;
}

static void vh_desc_(const char* fmt, ...) __attribute__((format(printf,1,2), noinline, unused));
static void vh_desc_(const char* fmt, ...)
{
	int n;
	va_list va;
	n = snprintf(vh->desc, sizeof(vh->desc), "[%s] ", vh->section);
	va_start(va, fmt);
	vsnprintf(vh->desc+n, sizeof(vh->desc)-n, fmt, va);
	va_end(va);
	if(!vh_replay && vh->nsamples < VH_NSAMP)
		snprintf(vh->samples[vh->nsamples++], sizeof(vh->samples[0]), "%.590s", vh->desc);
}
#define VH_DESC(...) do{ if(__builtin_expect(vh_want,0)) vh_desc_(__VA_ARGS__); }while(0)
//	at most once per case
#define VH_NONTRIV(c) do{ if((c) && !vh_nt) { vh_nt = true; vh->nontriv++; } }while(0)

//	printable form of some bytes, a few of these may be used in one call
static const char* vh_q(const void* data, long n) __attribute__((unused));
static const char* vh_q(const void* data, long n)
{
	static char bufs[12][420];
	static int next;
	char* b = bufs[next = (next+1)%12];
	const unsigned char* p = data;
	int o = 0;
	long i;
	if(!data)
		return "(null)";
	if(n < 0)
		return "(negative size)";
	b[o++] = '"';
	for(i=0; i<n && o<380; i++)
	{
		if(p[i] >= 32 && p[i] < 127 && p[i] != '"' && p[i] != '\\')
			b[o++] = p[i];
		else
			o += sprintf(b+o, "\\x%02x", p[i]);
	}
	b[o++] = '"';
	if(i < n)
		o += sprintf(b+o, "...(%ld)", n);
	b[o] = 0;
	return b;
}

//	A place for text surrounded by inaccessible memory. off = alignment of the text within an 8 byte granule
typedef struct { unsigned char* base; long cap; unsigned char* p; long n; } vh_slot_t;

static void vh_slot_init(vh_slot_t* s, long cap) __attribute__((unused));
static void vh_slot_init(vh_slot_t* s, long cap)
{
	cap = (cap + 64 + 4095) & ~4095L;
	s->base = mmap(NULL, cap + 8192, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
	if(s->base == MAP_FAILED) abort();
	mprotect(s->base, 4096, PROT_NONE);
	mprotect(s->base + 4096 + cap, 4096, PROT_NONE);
	s->base += 4096;
	s->cap = cap;
	s->p = s->base; s->n = 0;
	VH_POISON(s->base, cap);
}
static void* vh_slot_set(vh_slot_t* s, const void* src, long n, int off) __attribute__((unused));
static void* vh_slot_set(vh_slot_t* s, const void* src, long n, int off)
{
	unsigned char* old_end = s->p + s->n;
	unsigned char* p = s->base + 32 + off;
	unsigned char* end = p + n;
	unsigned char* hi = old_end > end ? old_end : end;
	if(n + 64 > s->cap) abort();
	hi = (unsigned char*)(((uintptr_t)hi + 15) & ~(uintptr_t)7);
	VH_UNPOISON(s->base, hi - s->base);
	if(hi - end > 0 && hi - end < 64)
		memset(end, 0x5A, hi - end);
	memset(s->base+24, 0x5A, 8+off);
	if(n)
		memcpy(p, src, n);
	VH_POISON(s->base, 32 + (off & ~7));
	VH_POISON(end, hi - end);
	s->p = p; s->n = n;
	return p;
}

static void vh_init(int argc, char** argv) __attribute__((unused));
static void vh_init(int argc, char** argv)
{
	int i, fd;
	const char* shm = NULL;
	for(i=1; i<argc; i++)
	{
		if(!strcmp(argv[i], "--shm")) shm = argv[++i];
		else if(!strcmp(argv[i], "--shard")) { vh_shard = atoi(argv[++i]); vh_nshards = atoi(argv[++i]); }
		else if(!strcmp(argv[i], "--tier")) vh_thorough = !strcmp(argv[++i], "thorough");
		else if(!strcmp(argv[i], "--replay")) { vh_replay = true; vh_rs = atol(argv[++i]); vh_ri = atol(argv[++i]); }
		else { fprintf(stderr, "bad argument %s\n", argv[i]); exit(2); }
	}
	if(shm)
	{
		fd = open(shm, O_RDWR|O_CREAT, 0600);
		if(fd < 0 || ftruncate(fd, sizeof(*vh))) { perror(shm); exit(2); }
		vh = mmap(NULL, sizeof(*vh), PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
		close(fd);
	}
	else
		vh = mmap(NULL, sizeof(*vh), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	if(vh == MAP_FAILED) { perror("mmap"); exit(2); }
	vh_section("default");
}
static int vh_end(void) __attribute__((unused));
static int vh_end(void)
{
	vh->done = 1;
	if(vh_replay && !vh->evals)
		return 3;
	return 0;
}

//	odometer over n digits of base b, returns false after the last
static inline bool vh_next(int* d, int n, int b)
{
	int i;
	for(i=n-1; i>=0; i--)
	{
		if(++d[i] < b)
			return true;
		d[i] = 0;
	}
	return false;
}
static inline long vh_pow(long b, int n) { long r=1; while(n--) r*=b; return r; }
//	text number idx of length n over an alphabet
static inline void vh_text(unsigned char* dst, long idx, int n, const unsigned char* alpha, int na)
{
	int i;
	for(i=n-1; i>=0; i--) { dst[i] = alpha[idx % na]; idx /= na; }
}
#endif
