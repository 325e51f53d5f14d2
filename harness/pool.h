//	pool.h - a table of texts, each in its own exactly bounded piece of memory
#ifndef POOL_H
#define POOL_H
#include "vh.h"
#include "strview.h"
typedef struct { int count; unsigned char* base; int stride; strview_t* v; } vh_pool_t;

//	all texts of length lo..hi over alpha. If nul is set, a terminator follows each (inside the accessible memory)
static vh_pool_t pool_make(int lo, int hi, const unsigned char* alpha, int na, bool nul) __attribute__((unused));
static vh_pool_t pool_make(int lo, int hi, const unsigned char* alpha, int na, bool nul)
{
	vh_pool_t p = {0};
	long n = 0, i, k = 0;
	int len;
	for(len=lo; len<=hi; len++)
		n += vh_pow(na, len);
	p.stride = (hi + 1 + 8 + 15) & ~7;
	p.base = mmap(NULL, n*p.stride + 64, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
	if(p.base == MAP_FAILED) abort();
	memset(p.base, 0x5A, n*p.stride + 64);
	p.v = malloc(n * sizeof(*p.v));
	VH_POISON(p.base, n*p.stride + 64);
	for(len=lo; len<=hi; len++)
		for(i=0; i<vh_pow(na, len); i++)
		{
			unsigned char* d = p.base + 16 + k*p.stride;
			VH_UNPOISON(d, len + (nul?1:0));
			vh_text(d, i, len, alpha, na);
			if(nul)
				d[len] = 0;
			p.v[k].data = (const char*)d;
			p.v[k].size = len;
			k++;
		}
	p.count = n;
	return p;
}
#endif
