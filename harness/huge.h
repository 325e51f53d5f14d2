//	huge.h - texts beyond 20 and 24 bits, in allocations of exactly their size
#ifndef HUGE_TEXT_H
#define HUGE_TEXT_H
#include <stdlib.h>
static const int HZ[] = {(1<<20)-1, 1<<20, (1<<20)+1, (1<<24)-1, 1<<24, (1<<24)+1};
#define NHZ 6
static char* huge_text(int n, int c) { char* p = malloc(n ? n : 1); memset(p, c, n); return p; }
#define HUGE_EACH(i) vh_section("texts beyond 24 bits"); for(int i=0; i<NHZ; i++) if(vh_slice() && vh_case())
#endif
