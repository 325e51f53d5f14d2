H='''#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <limits.h>
#include <errno.h>
#include "strview.h"
#include "strbuf.h"
#include "strnum.h"
#define CHECK(c) do{ if(!(c)) { printf("line %d: %s is false\\n", __LINE__, #c); return 1; } }while(0)
'''
SEEDS=[
dict(id='line_static', property='C31', needs='another thread splitting lines of another text between the two halves of strview_split_line',
 what='the working copy of the source in strview_split_line is static, so two calls in progress share it',
 edits=[('strview.c','	strview_t result = STRVIEW_INVALID;\n	strview_t src;\n	char e = 0;\n','	strview_t result = STRVIEW_INVALID;\n	static strview_t src;\n	char e = 0;\n')],
 san='', ld='-pthread',
 demo=H+'''#include <pthread.h>
#include <time.h>
static volatile int bad, stop;
static void* run(void* p){ const char* t=p; char b[4096]; int n=0; while(n<4000){ memcpy(b+n,t,8); n+=8; }
 for(long k=0; k<3000000 && !bad && !stop; k++){ strview_t s={.data=b,.size=n-k%7}; char e=0; strview_t l=strview_split_line(&s,&e); if(l.data!=b || l.size!=6 || s.data!=b+7) bad=1; } return NULL; }
int main(void){ pthread_t a,b; pthread_create(&a,NULL,run,"abcdef\\nx"); pthread_create(&b,NULL,run,"ghijkl\\ny"); pthread_join(a,NULL); stop=1; pthread_join(b,NULL); CHECK(!bad); return 0; }'''),
dict(id='prnf_static', property='C31', needs='an allocator which itself formats into another buffer (for a log line, say) while a buffer is growing under strbuf_prnf',
 what='the buffer under construction is static in strbuf_vprnf, so a nested call replaces it',
 edits=[('strbuf.c','strview_t strbuf_vprnf(strbuf_t** buf_ptr, const char* format, va_list va)\n{\n	strbuf_t* buf;\n','strview_t strbuf_vprnf(strbuf_t** buf_ptr, const char* format, va_list va)\n{\n	static strbuf_t* buf;\n')],
 defs='-DSTRBUF_PROVIDE_PRNF -Itest', src='test/prnf.c',
 demo=H+'''static strbuf_t* logb; static int depth;
static void* al(struct strbuf_allocator_t* a, void* p, size_t n){ if(n && logb && !depth){ depth=1; strbuf_prnf(&logb,"size %i",(int)n); depth=0; } if(!n){ free(p); return NULL; } return realloc(p,n); }
int main(void){ strbuf_allocator_t a={.allocator=al}; strbuf_t* l=strbuf_create(100,&a); strbuf_t* b=strbuf_create(4,&a); logb=l; strbuf_prnf(&b,"hello %s","world, hello"); logb=NULL; CHECK(strview_is_match(strbuf_view(&b),"hello world, hello")); return 0; }'''),
dict(id='cat_static', property='C31', needs='an allocator which itself concatenates into another buffer, while strbuf_cat builds in a temporary buffer',
 what='the state of the concatenation is static, so a nested strbuf_cat on another buffer changes whether a temporary buffer is used',
 edits=[('strbuf.c','	bool	tmp_buf_needed = false;\n','	static bool	tmp_buf_needed;\n'),
  ('strbuf.c','	va_copy(vb, va);\n\n	while(i++ != n_args)\n	{\n		str = va_arg(va, strview_t);\n		failed','	va_copy(vb, va);\n	tmp_buf_needed = false;\n\n	while(i++ != n_args)\n	{\n		str = va_arg(va, strview_t);\n		failed')],
 demo=H+'''static strbuf_t* logb; static int depth;
static void* al(struct strbuf_allocator_t* a, void* p, size_t n){ if(n && logb && !depth){ depth=1; strbuf_cat(&logb,cstr("[allocation"),cstr("]")); depth=0; } if(!n){ free(p); return NULL; } return realloc(p,n); }
int main(void){ strbuf_allocator_t a={.allocator=al}; strbuf_t* l=strbuf_create(100,&a); strbuf_t* b=strbuf_create(4,&a); strbuf_assign(&b,cstr("head")); logb=l; strbuf_cat(&b,cstr("<<"),strbuf_view(&b),cstr(">>"),strbuf_view(&b)); logb=NULL; CHECK(strview_is_match(strbuf_view(&b),"<<head>>head")); return 0; }'''),
dict(id='left_short', property='C07', needs='a position more than 65535 characters into a long source',
 what='the offset of the position is taken modulo 65536',
 edits=[('strview.c','			result = split_index(strview_ptr, (int)(pos.data - strview_ptr->data));\n','			result = split_index(strview_ptr, (unsigned short)(pos.data - strview_ptr->data));\n')],
 demo=H+'''int main(void){ int n=70000; char* t=malloc(n); memset(t,'x',n); strview_t s={.data=t,.size=n}, p={.data=t+66000,.size=3}; strview_t r=strview_split_left(&s,p); CHECK(r.size==66000); CHECK(s.size==4000 && s.data==t+66000); return 0; }'''),
]
