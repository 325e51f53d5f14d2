//	triple.h - every text of three bytes, in an allocation of exactly its size
#ifndef TRIPLE_H
#define TRIPLE_H
#include <stdlib.h>
static inline bool triple_set(unsigned char* t, int ab, int c) { t[0] = ab >> 8; t[1] = ab; t[2] = c; return true; }
#define TRIPLE_EACH(t) vh_section("every text of three bytes"); unsigned char* t = malloc(3); \
	for(int ab_=0; ab_<65536; ab_++) if(vh_slice()) for(int c_=0; c_<256; c_++) if(vh_case() && triple_set(t, ab_, c_))
#endif
