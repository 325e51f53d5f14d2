/*
	bufmodel.h - explicit-state exploration of strbuf.

	A state is (storage, capacity, content). Storage is a fixed buffer, or a dynamic one on an allocator which always moves
	to a higher address, or to a lower one, or one which resizes in place. A transition is one public call with given arguments. The model of a call is written
	from the documentation, on plain byte strings. Each transition is executed by the real code on a real buffer put in
	that state (through the public interface), and the outcome is compared to the model.

	The flags in chk select which clauses are judged, so that each property reports its own violations only.
	(Accesses outside the buffer, its source and its allocation are caught by AddressSanitizer in all of them.)
*/
#ifndef BUFMODEL_H
#define BUFMODEL_H
#include "vh.h"
#include "strbuf.h"
#include "arena.h"

enum { K_FIXED, K_MOVE, K_STAY, K_DOWN, NB_KINDS };
enum { F_CONTENT=1, F_VIEW=2, F_INV=4, F_FIXED=8, F_CAP=16, F_ALLOC=32, F_SRC=64 };
static unsigned chk = 0;

#define M_MAX 400000
typedef struct { int kind; int cap; int size; unsigned char* b; } m_t;

enum { S_EXT, S_INT, S_INVALID, S_CSTR, S_INTC };
typedef struct { int kind; int off; int len; const unsigned char* ext; } src_t;

enum { OP_ASSIGN, OP_APPEND, OP_PREPEND, OP_INSERT, OP_BEFORE, OP_AFTER, OP_STRIP, OP_CAT, OP_VCAT, OP_CHAR, OP_GROW, OP_SHRINK, OP_VIEW, NB_OPS };
static const char* op_name[] = { "assign", "append", "prepend", "insert_at_index", "insert_before", "insert_after", "strip", "cat", "vcat", "append_char", "grow", "shrink", "view" };
#define MAXARG 16
typedef struct { int op; int idx; int n; src_t s[MAXARG]; int doff, dlen; int dkind; } act_t;	// dkind 0 window of the buffer, 1 foreign memory, 2 invalid

static const char* m_str(const m_t* m)
{
	static char t[6][600]; static int k;
	char* p = t[k = (k+1)%6];
	snprintf(p, 600, "%s buffer of capacity %d holding %s", m->kind == K_FIXED ? "fixed" : m->kind == K_MOVE ? "dynamic" : m->kind == K_STAY ? "dynamic (in place)" : "dynamic (moving down)", m->cap, vh_q(m->b, m->size));
	return p;
}
static const char* src_str(const src_t* s)
{
	static char t[8][480]; static int k;
	char* p = t[k = (k+1)%8];
	switch(s->kind)
	{
		case S_EXT: snprintf(p, 480, "%s", vh_q(s->ext, s->len)); break;
		case S_CSTR: snprintf(p, 480, "C string %s", vh_q(s->ext, s->len)); break;
		case S_INT: snprintf(p, 480, "own bytes %d+%d", s->off, s->len); break;
		case S_INTC: snprintf(p, 480, "own C string from %d", s->off); break;
		default: snprintf(p, 480, "invalid view");
	}
	return p;
}
static const char* a_str(const act_t* a)
{
	static char t[2][8400]; static int k;
	char* p = t[k = (k+1)%2];
	int o = snprintf(p, 200, "%s(", op_name[a->op]);
	if(a->op == OP_INSERT || a->op == OP_GROW || a->op == OP_CHAR) o += snprintf(p+o, 100, "%d ", a->idx);
	if(a->op == OP_BEFORE || a->op == OP_AFTER) o += snprintf(p+o, 100, a->dkind == 0 ? "at own bytes %d+%d " : a->dkind == 1 ? "at a place outside " : "at an invalid view ", a->doff, a->dlen);
	for(int i=0; i<a->n; i++) o += snprintf(p+o, 500, "%s%s", i ? ", " : "", src_str(&a->s[i]));
	snprintf(p+o, 100, ")");
	return p;
}

//	---- the model ----
static int roundup(long n) { long r = (n + STRBUF_CAPACITY_GROW_STEP - 1) / STRBUF_CAPACITY_GROW_STEP * STRBUF_CAPACITY_GROW_STEP; return r > INT_MAX ? INT_MAX : (int)r; }
static int src_bytes(const m_t* m, const src_t* s, unsigned char* d)
{
	if(s->kind == S_INVALID || !s->len) return 0;
	memcpy(d, s->kind == S_INT || s->kind == S_INTC ? m->b + s->off : s->ext, s->len);
	return s->len;
}
//	w = expected state after a on m. valid: is a view of the content returned (else an invalid view). mincap: capacity is only bounded below
static void m_apply(const m_t* m, const act_t* a, m_t* w, bool* valid, bool* mincap)
{
	static unsigned char r[M_MAX];
	int i, j, n = 0, pos = -1;
	bool change = true;
	w->kind = m->kind; w->cap = m->cap;
	*valid = true; *mincap = false;
	switch(a->op)
	{
		case OP_ASSIGN: n = src_bytes(m, &a->s[0], r); break;
		case OP_CAT: case OP_VCAT:
			for(i=0; i<a->n; i++) n += src_bytes(m, &a->s[i], r+n);
			for(i=0; i<a->n; i++) if(m->kind == K_FIXED && a->s[i].kind == S_INT) n = 0;	// only dynamic buffers take views of themselves
			break;
		case OP_APPEND: pos = m->size; break;
		case OP_PREPEND: pos = 0; break;
		case OP_INSERT:
		{
			long p = a->idx;
			if(p < 0) p += m->size;
			if(p < 0) p = 0;
			if(p > m->size) p = m->size;
			pos = (int)p;
			break;
		}
		case OP_BEFORE: if(a->dkind == 0) pos = a->doff; else change = false; break;
		case OP_AFTER:  if(a->dkind == 0) pos = a->doff + a->dlen; else change = false; break;
		case OP_STRIP:
		{
			static unsigned char set[M_MAX];
			int k = src_bytes(m, &a->s[0], set);
			for(i=0; i<m->size; i++)
			{
				for(j=0; j<k && set[j] != m->b[i]; j++);
				if(j == k) r[n++] = m->b[i];
			}
			break;
		}
		case OP_CHAR: memcpy(r, m->b, m->size); n = m->size; r[n++] = (unsigned char)a->idx; break;
		default: change = false;
	}
	if(pos >= 0)
	{
		memcpy(r, m->b, pos); n = pos;
		n += src_bytes(m, &a->s[0], r+n);
		memcpy(r+n, m->b+pos, m->size-pos); n += m->size-pos;
	}
	if(!change) { memcpy(r, m->b, m->size); n = m->size; }
	if(n > m->cap)
	{
		if(m->kind == K_FIXED) n = 0;
		else w->cap = roundup(n);
	}
	if(a->op == OP_GROW)
	{
		if(m->kind == K_FIXED) *valid = false;
		else { *mincap = true; if(a->idx > w->cap) w->cap = a->idx; }
	}
	if(a->op == OP_SHRINK && m->kind != K_FIXED) w->cap = m->size;
	memcpy(w->b, r, n);
	w->size = n;
}

//	---- the real buffer ----
static vh_slot_t ext_slot[MAXARG];
static unsigned char ext_copy_unused;
static vh_slot_t fixed_slot;
static bool bm_ready = false;
static void* app_unit[2];
static void bm_init(int maxext, int maxfixed)
{
	for(int i=0; i<MAXARG; i++) vh_slot_init(&ext_slot[i], maxext + 8);
	vh_slot_init(&fixed_slot, maxfixed + 64);
	arena_init();
	bm_ready = true;
}
static strbuf_t* bm_make(const m_t* m)
{
	strbuf_t* b;
	static unsigned char junk[M_MAX+64];
	if(!junk[0]) memset(junk, 0x5B, sizeof(junk));
	if(m->kind == K_FIXED)
	{
		int total = (int)sizeof(strbuf_t) + m->cap + 1;
		void* p = vh_slot_set(&fixed_slot, junk, total, 0);
		b = strbuf_create_fixed(p, total);
		VH_CHECK((void*)b == p, "create_fixed refused suitable memory for a capacity of %d", m->cap);
	}
	else
	{
		arena_reset(m->kind == K_STAY ? A_STAY : m->kind == K_DOWN ? A_DOWN : A_UP);
		b = strbuf_create_empty(m->cap, arena_allocator());
		VH_CHECK(b != NULL, "create_empty(%d) returned NULL", m->cap);
	}
	if(m->size)
	{
		unsigned char* e = vh_slot_set(&ext_slot[0], m->b, m->size, 0);
		strbuf_assign(&b, (strview_t){(char*)e, m->size});
	}
	if(b->capacity != m->cap || b->size != m->size || memcmp(b->cstr, m->b, m->size))
	{
		//	the state could not be built: judged by the property of the respective clause only
		if(chk & (F_CONTENT|F_FIXED|F_INV)) VH_CHECK(b->size == m->size && !memcmp(b->cstr, m->b, m->size), "assigning %s to an empty buffer of capacity %d gave %s", vh_q(m->b, m->size), m->cap, vh_q(b->cstr, b->size));
		if(chk & F_CAP) VH_CHECK(b->capacity == m->cap, "a buffer created for %d and assigned %d bytes has capacity %d", m->cap, m->size, b->capacity);
	}
	//	nothing may rely on what is behind the terminator
	if(b->capacity > b->size && b->capacity < M_MAX)
		memset(b->cstr + b->size + 1, 0x5B, b->capacity - b->size);
	return b;
}
static strview_t bm_src(strbuf_t* b, const src_t* s, int slot)
{
	switch(s->kind)
	{
		case S_INT: case S_INTC: return (strview_t){b->cstr + s->off, s->len};
		case S_EXT: return (strview_t){(char*)vh_slot_set(&ext_slot[slot], s->ext, s->len, 0), s->len};
		case S_CSTR:
		{
			unsigned char t[600];
			memcpy(t, s->ext, s->len); t[s->len] = 0;
			return (strview_t){(char*)vh_slot_set(&ext_slot[slot], t, s->len+1, 0), s->len};
		}
	}
	return STRVIEW_INVALID;
}
static strview_t vcat_call(strbuf_t** b, int n, ...)
{
	va_list va; strview_t r;
	va_start(va, n);
	r = strbuf_vcat(b, n, va);
	va_end(va);
	return r;
}
static strview_t bm_call(strbuf_t** pb, const act_t* a)
{
	strview_t s[MAXARG] = {{0}}, d = STRVIEW_INVALID;
	static char foreign[64];
	for(int i=0; i<a->n; i++) s[i] = bm_src(*pb, &a->s[i], i);
	bool c = a->n && (a->s[0].kind == S_CSTR || a->s[0].kind == S_INTC);
	if(a->op == OP_BEFORE || a->op == OP_AFTER)
	{
		if(a->dkind == 0) d = (strview_t){(*pb)->cstr + a->doff, a->dlen};
		if(a->dkind == 1) d = (strview_t){foreign+16, 5};
	}
	switch(a->op)
	{
		case OP_ASSIGN: return strbuf_assign(pb, s[0]);
		case OP_APPEND: return c ? strbuf_append(pb, s[0].data) : strbuf_append(pb, s[0]);
		case OP_PREPEND: return c ? strbuf_prepend(pb, (char*)s[0].data) : strbuf_prepend(pb, s[0]);
		case OP_INSERT: return c ? strbuf_insert_at_index(pb, a->idx, s[0].data) : strbuf_insert_at_index(pb, a->idx, s[0]);
		case OP_BEFORE: return c ? strbuf_insert_before(pb, d, s[0].data) : strbuf_insert_before(pb, d, s[0]);
		case OP_AFTER: return c ? strbuf_insert_after(pb, d, (char*)s[0].data) : strbuf_insert_after(pb, d, s[0]);
		case OP_STRIP: return c ? strbuf_strip(pb, s[0].data) : strbuf_strip(pb, s[0]);
		case OP_CAT:
			switch(a->n)
			{
				case 1: return strbuf_cat(pb, s[0]);
				case 2: return strbuf_cat(pb, s[0], s[1]);
				case 3: return strbuf_cat(pb, s[0], s[1], s[2]);
				case 4: return strbuf_cat(pb, s[0], s[1], s[2], s[3]);
				case 5: return strbuf_cat(pb, s[0], s[1], s[2], s[3], s[4]);
				case 6: return strbuf_cat(pb, s[0], s[1], s[2], s[3], s[4], s[5]);
				case 7: return strbuf_cat(pb, s[0], s[1], s[2], s[3], s[4], s[5], s[6]);
				case 8: return strbuf_cat(pb, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]);
				case 9: return strbuf_cat(pb, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8]);
				case 10: return strbuf_cat(pb, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9]);
				case 11: return strbuf_cat(pb, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10]);
				case 12: return strbuf_cat(pb, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11]);
				case 13: return strbuf_cat(pb, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12]);
				case 14: return strbuf_cat(pb, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13]);
				case 15: return strbuf_cat(pb, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14]);
				default: return strbuf_cat(pb, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15]);
			}
		case OP_VCAT: return vcat_call(pb, a->n, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15]);
		case OP_CHAR: return strbuf_append_char(pb, (char)a->idx);
		case OP_GROW: return strbuf_grow(pb, a->idx);
		case OP_SHRINK: return strbuf_shrink(pb);
		default: return strbuf_view(pb);
	}
}
//	judge the buffer *pb and the returned view against the model state w. m,a only for messages
static void bm_judge(strbuf_t** pb, strbuf_t* was, strview_t r, const m_t* m, const act_t* a, const m_t* w, bool valid, bool mincap)
{
	strbuf_t* b = *pb;
	if(chk & F_INV)
	{
		VH_CHECK(b != NULL, "%s on %s: buffer pointer is NULL", a_str(a), m_str(m));
		VH_CHECK(b->size >= 0 && b->size <= b->capacity, "%s on %s: size %d capacity %d", a_str(a), m_str(m), b->size, b->capacity);
		VH_CHECK(b->cstr[b->size] == 0, "%s on %s: content is not terminated", a_str(a), m_str(m));
		if(r.data) VH_CHECK(r.data == b->cstr && r.size == b->size, "%s on %s: the returned view is not the content of the buffer", a_str(a), m_str(m));
		else VH_CHECK(r.size == 0, "%s on %s: invalid view with a size", a_str(a), m_str(m));
		if(m->kind == K_FIXED)
			VH_CHECK(b == was && !b->allocator.allocator && !b->allocator.app_data, "%s on %s: fixed buffer moved or got an allocator", a_str(a), m_str(m));
		else
		{
			VH_CHECK(b->allocator.allocator == arena_alloc && b->allocator.app_data == arena_app(), "%s on %s: allocator changed", a_str(a), m_str(m));
			VH_CHECK(arena_size(b) >= (long)sizeof(strbuf_t) + b->capacity + 1, "%s on %s: allocation of %ld bytes for a capacity of %d", a_str(a), m_str(m), arena_size(b), b->capacity);
		}
	}
	if((chk & F_CONTENT) || ((chk & F_FIXED) && m->kind == K_FIXED))
		VH_CHECK(b && b->size == w->size && !memcmp(b->cstr, w->b, w->size), "%s on %s: gave %s, expected %s", a_str(a), m_str(m), b ? vh_q(b->cstr, b->size) : "NULL", vh_q(w->b, w->size));
	if(chk & F_VIEW)
	{
		if(valid) VH_CHECK(r.data == b->cstr && r.size == b->size, "%s on %s: returned %s, not a view of the content", a_str(a), m_str(m), r.data ? vh_q(r.data, r.size) : "an invalid view");
		else VH_CHECK(!r.data && !r.size, "%s on %s: returned %s, expected an invalid view", a_str(a), m_str(m), vh_q(r.data, r.size));
	}
	if(((chk & F_FIXED) && m->kind == K_FIXED) || (chk & F_CAP))
	{
		if(mincap) VH_CHECK(b->capacity >= w->cap, "%s on %s: capacity became %d, expected at least %d", a_str(a), m_str(m), b->capacity, w->cap);
		else VH_CHECK(b->capacity == w->cap, "%s on %s: capacity became %d, expected %d", a_str(a), m_str(m), b->capacity, w->cap);
		if((chk & F_CAP) && a->op == OP_GROW) VH_CHECK(valid ? r.data == b->cstr && r.size == m->size : !r.data && !r.size, "%s on %s: returned the wrong view", a_str(a), m_str(m));
		if((chk & F_CAP) && (a->op == OP_GROW || a->op == OP_SHRINK)) VH_CHECK(b->size == m->size && !memcmp(b->cstr, m->b, m->size), "%s on %s changed the content", a_str(a), m_str(m));
	}
	if((chk & F_ALLOC) && m->kind != K_FIXED)
	{
		VH_CHECK(arena_live_count() == 1, "%s on %s: %d live allocations afterwards", a_str(a), m_str(m), arena_live_count());
		VH_CHECK(arena_size(b) >= (long)sizeof(strbuf_t) + b->capacity + 1, "%s on %s: allocation of %ld bytes for a capacity of %d", a_str(a), m_str(m), arena_size(b), b->capacity);
	}
	if(chk & F_SRC)
		for(int i=0; i<a->n; i++)
			if(a->s[i].kind == S_EXT || a->s[i].kind == S_CSTR)
				VH_CHECK(!memcmp(ext_slot[i].p, a->s[i].ext, a->s[i].len), "%s on %s: source text modified", a_str(a), m_str(m));
}
static unsigned char bm_w[M_MAX];
//	one transition from state m
static void bm_step(const m_t* m, const act_t* a)
{
	m_t w = { .b = bm_w };
	bool valid, mincap;
	strbuf_t* b = bm_make(m), *was = b;
	m_apply(m, a, &w, &valid, &mincap);
	strview_t r = bm_call(&b, a);
	vh->trans++; vh->traces++;
	bm_judge(&b, was, r, m, a, &w, valid, mincap);
	if(m->kind != K_FIXED && (chk & F_ALLOC))
	{
		strbuf_destroy(&b);
		VH_CHECK(b == NULL, "destroy did not NULL the pointer");
		VH_CHECK(arena_live_count() == 0, "%s on %s, then destroy: %d allocations leaked", a_str(a), m_str(m), arena_live_count());
	}
}

//	---- enumeration of actions on a state ----
typedef void (*act_fn)(const act_t* a, void* ctx);
typedef struct { src_t* s; int n; } srcs_t;
static void each_action(const m_t* m, const src_t* s, int ns, unsigned mask, bool cat3, act_fn f, void* ctx)
{
	act_t a;
	int i, j, k, x;
	static const int ex[] = {INT_MIN, INT_MIN+1, INT_MAX, INT_MAX-1, -100, 100, 65536, -65536};
	for(i=0; i<ns; i++)
	{
		if(mask >> OP_ASSIGN & 1 && s[i].kind != S_CSTR && s[i].kind != S_INTC) { a = (act_t){ .op=OP_ASSIGN, .n=1, .s={s[i]} }; f(&a, ctx); }
		if(mask >> OP_APPEND & 1) { a = (act_t){ .op=OP_APPEND, .n=1, .s={s[i]} }; f(&a, ctx); }
		if(mask >> OP_PREPEND & 1) { a = (act_t){ .op=OP_PREPEND, .n=1, .s={s[i]} }; f(&a, ctx); }
		if(mask >> OP_INSERT & 1)
		{
			for(x=-m->size-2; x<=m->size+2; x++) { a = (act_t){ .op=OP_INSERT, .idx=x, .n=1, .s={s[i]} }; f(&a, ctx); }
			for(x=0; x<8; x++) { a = (act_t){ .op=OP_INSERT, .idx=ex[x], .n=1, .s={s[i]} }; f(&a, ctx); }
		}
		for(k=OP_BEFORE; k<=OP_AFTER; k++)
			if(mask >> k & 1)
			{
				for(x=0; x<=m->size; x++) for(j=0; x+j<=m->size; j++) { a = (act_t){ .op=k, .n=1, .s={s[i]}, .doff=x, .dlen=j }; f(&a, ctx); }
				a = (act_t){ .op=k, .n=1, .s={s[i]}, .dkind=1 }; f(&a, ctx);
				a = (act_t){ .op=k, .n=1, .s={s[i]}, .dkind=2 }; f(&a, ctx);
			}
		if(mask >> OP_STRIP & 1) { a = (act_t){ .op=OP_STRIP, .n=1, .s={s[i]} }; f(&a, ctx); }
		for(k=OP_CAT; k<=OP_VCAT; k++)
			if(mask >> k & 1 && s[i].kind != S_CSTR && s[i].kind != S_INTC)
			{
				a = (act_t){ .op=k, .n=1, .s={s[i]} }; f(&a, ctx);
				for(j=0; j<ns; j++)
				{
					if(s[j].kind == S_CSTR || s[j].kind == S_INTC) continue;
					a = (act_t){ .op=k, .n=2, .s={s[i],s[j]} }; f(&a, ctx);
					if(cat3 && k == OP_CAT)
						for(x=0; x<ns; x++) { if(s[x].kind == S_CSTR || s[x].kind == S_INTC) continue; a = (act_t){ .op=k, .n=3, .s={s[i],s[j],s[x]} }; f(&a, ctx); }
				}
			}
	}
	if(mask >> OP_VCAT & 1) { a = (act_t){ .op=OP_VCAT, .n=0 }; f(&a, ctx); }
	if(mask >> OP_CHAR & 1) { static const int c[] = {'a','b',0,255}; for(i=0; i<4; i++) { a = (act_t){ .op=OP_CHAR, .idx=c[i] }; f(&a, ctx); } }
	if(mask >> OP_GROW & 1) { for(x=-2; x<=m->cap+20; x++) { a = (act_t){ .op=OP_GROW, .idx=x }; f(&a, ctx); } a = (act_t){ .op=OP_GROW, .idx=INT_MIN }; f(&a, ctx); }
	if(mask >> OP_SHRINK & 1) { a = (act_t){ .op=OP_SHRINK }; f(&a, ctx); }
	if(mask >> OP_VIEW & 1) { a = (act_t){ .op=OP_VIEW }; f(&a, ctx); }
}
#define OPALL ((1u<<NB_OPS)-1)
//	cat and vcat of n views, those at p and q special (own windows, or empty, or invalid), the others outside texts of one to three characters
static void cat_many(bool own, int kinds, act_fn f, void (*state)(const m_t*, void*), void* ctx)
{
	static unsigned char cont[8] = {'A', 'B', 0, 'D'};
	static unsigned char txt[] = "abcdefghijklmnopqrstuvwxyz0123456789";
	for(int n=4; n<=MAXARG; n++) for(int kind=0; kind<kinds; kind++) for(int size=0; size<=4; size+=2)
	{
		if(!vh_slice()) continue;
		for(int sp=0; sp<(own ? 4 : 2); sp++) for(int p=0; p<n; p++) for(int q=p; q<n; q++)
		{
			src_t x = sp == 0 ? (src_t){S_EXT, 0, 0, txt} : sp == 1 ? (src_t){S_INVALID} : sp == 2 ? (src_t){S_INT, 0, size} : (src_t){S_INT, size ? 1 : 0, size ? size-1 : 0};
			act_t a = { .op = OP_CAT, .n = n };
			int total = 0;
			if(own && sp < 2 && q > p) continue;
			//	an empty view of a fixed buffer may or may not count as a view of the buffer
			if(own && sp >= 2 && !x.len && !kind) continue;
			for(int i=0; i<n; i++) { a.s[i] = (i == p || i == q) && !(sp == 3 && i == q && q > p) ? x : i == q ? (src_t){S_INT, 0, 1} : (src_t){S_EXT, 0, 1 + i%3, txt+i}; if(a.s[i].kind == S_INT && !size) a.s[i].len = 0; total += a.s[i].len; }
			if(!kind && own && sp == 3 && !size) continue;
			for(int c=0; c<5; c++)
			{
				m_t m = {kind, c == 0 ? size : c == 1 ? total-1 : c == 2 ? total : c == 3 ? total+1 : 2*total+4, size, cont};
				if(m.cap < size) continue;
				state(&m, ctx);
				a.op = OP_CAT; f(&a, ctx);
				a.op = OP_VCAT; f(&a, ctx);
			}
		}
	}
}

static int own_windows(const m_t* m, src_t* s, bool empties)
{
	int n = 0;
	for(int o=0; o<=m->size; o++) for(int l=empties?0:1; o+l<=m->size; l++) s[n++] = (src_t){S_INT, o, l, NULL};
	return n;
}
#endif
