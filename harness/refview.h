//	refview.h - reference meaning of the view operations, written from the documentation. Independent of the code under test.
#ifndef REFVIEW_H
#define REFVIEW_H
#include "vh.h"
#include "strview.h"
#define RV(d,n) ((strview_t){(d),(n)})
#define RV_INVALID ((strview_t){NULL,0})
static inline int r_up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static inline bool r_same(const char* a, const char* b, long n, bool nc)
{
	for(long i=0; i<n; i++)
		if(nc ? r_up((unsigned char)a[i]) != r_up((unsigned char)b[i]) : a[i] != b[i])
			return false;
	return true;
}
static inline strview_t r_find(strview_t h, strview_t n, bool last, bool nc)
{
	strview_t r = RV_INVALID;
	if(h.data && n.data)
		for(long i=0; i+n.size<=h.size; i++)
			if(r_same(h.data+i, n.data, n.size, nc))
			{
				r = RV(h.data+i, n.size);
				if(!last) break;
			}
	return r;
}
static inline bool r_isdelim(char c, const char* delims) { return c && strchr(delims, c); }
static inline strview_t r_first_delim(strview_t* s, const char* delims, bool xq)
{
	strview_t r = *s;
	bool q = false;
	if(s->data && delims)
		for(int i=0; i<r.size; i++)
		{
			if(xq && r.data[i] == '"') q = !q;
			if(!q && r_isdelim(r.data[i], delims))
			{
				*s = RV(r.data+i+1, r.size-i-1);
				return RV(r.data, i);
			}
		}
	*s = RV_INVALID;
	return r;
}
static inline strview_t r_last_delim(strview_t* s, const char* delims, bool xq)
{
	strview_t r = *s;
	bool q = false;
	if(s->data && delims)
		for(int i=r.size-1; i>=0; i--)
		{
			if(xq && r.data[i] == '"') q = !q;
			if(!q && r_isdelim(r.data[i], delims))
			{
				*s = RV(r.data, i);
				return RV(r.data+i+1, r.size-i-1);
			}
		}
	*s = RV_INVALID;
	return r;
}
static inline strview_t r_split_index(strview_t* s, long index)
{
	strview_t all = *s, r;
	long n = index;
	if(n < 0) { n = all.size + index; if(n < 0) n = 0; }
	if(n > all.size) n = all.size;
	if(!all.data) return all;
	r = RV(all.data, (int)n);
	*s = RV(all.data+n, (int)(all.size-n));
	if(index < 0) { strview_t t = *s; *s = r; r = t; }
	return r;
}
//	sub: *open set if the documentation leaves open if the (empty) result is valid
static inline strview_t r_sub(strview_t s, long begin, long end, bool* open)
{
	*open = false;
	if(!s.data || !s.size) { *open = s.data != NULL; return RV(s.data, 0); }
	if(begin < 0) begin += s.size;
	if(end < 0) end += s.size;
	if(begin > end || begin > s.size || end < 0) return RV_INVALID;
	if(begin == s.size && end > s.size) return RV_INVALID;	// some text was asked for, all of it outside
	if(begin == s.size) { *open = true; return RV(s.data+s.size, 0); }
	if(begin < 0 && end == 0) { *open = true; return RV(s.data, 0); }
	if(begin < 0) begin = 0;
	if(end > s.size) end = s.size;
	return RV(s.data+begin, (int)(end-begin));
}
static inline bool r_in(char c, strview_t set)
{
	for(int i=0; i<set.size; i++) if(set.data[i] == c) return true;
	return false;
}
//	mode 1 start, 2 end, 3 both
static inline strview_t r_trim(strview_t s, strview_t set, int mode)
{
	if(mode & 1) while(s.size && r_in(s.data[0], set)) { s.data++; s.size--; }
	if(mode & 2) while(s.size && r_in(s.data[s.size-1], set)) s.size--;
	return s;
}
static inline strview_t r_dequote(strview_t s)
{
	char q = s.size ? s.data[0] : 0;
	if(q == '"' || q == '\'')
		while(s.size > 1 && s.data[0] == q && s.data[s.size-1] == q) { s.data++; s.size -= 2; }
	return s;
}
//	one line. pend = pending first half of a two character line ending (0 if none)
static inline strview_t r_line(strview_t* s, char* pend)
{
	strview_t v = *s, r;
	int i;
	if(v.size && *pend && (v.data[0] == '\r' || v.data[0] == '\n') && v.data[0] != *pend) { v.data++; v.size--; }
	for(i=0; i<v.size && v.data[i] != '\r' && v.data[i] != '\n'; i++);
	if(i >= v.size) return RV_INVALID;
	r = RV(v.data, i);
	*pend = v.data[i++];
	if(i < v.size && (v.data[i] == '\r' || v.data[i] == '\n') && v.data[i] != *pend) { i++; *pend = 0; }
	*s = RV(v.data+i, v.size-i);
	return r;
}
//	does the view got agree with the view want, where an empty view may point anywhere in lo..hi
static inline bool rv_agree(strview_t got, strview_t want, const char* lo, const char* hi)
{
	if(got.size != want.size) return false;
	if(!want.data) return !got.data;
	if(!got.data) return false;
	if(want.size) return got.data == want.data;
	return got.data >= lo && got.data <= hi;
}
static const char* rv_str(strview_t v) __attribute__((unused));
static const char* rv_str(strview_t v) { return v.data ? vh_q(v.data, v.size) : v.size ? "(NULL data with a size!)" : "(invalid)"; }
#endif
