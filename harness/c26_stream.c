/*
	C26 stream accessories. read() and write() are replaced at link time by a descriptor whose every answer is chosen by the
	exploration: an error, 0, or any count up to what was asked for. State: content of the buffer (or view) and the bytes still
	to come. All the answers are explored in every state, to a bounded depth.
*/
#include "bufmodel.h"
#include "triple.h"
#include "refview.h"
#include "strbuf_io.h"
#include "strview_io.h"
#include <errno.h>
#include <sys/mman.h>
static int FD = 77;
static struct { bool on, huge; int ans, err; int calls; int fd; const void* ptr; size_t n; bool rd; unsigned char feed; unsigned char got[70000]; } io;
ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t);
ssize_t __wrap_read(int fd, void* p, size_t n)
{
	if(!io.on) return __real_read(fd, p, n);
	io.calls++; io.fd = fd; io.ptr = p; io.n = n; io.rd = true;
	if(n < 0x7fffffff && io.ans > (int)n) { io.ans = (int)n; }
	if(io.huge) { if(io.ans > 0) ((unsigned char*)p)[0] = 'f', ((unsigned char*)p)[io.ans-1] = 'l'; }
	else for(int i=0; i<io.ans; i++) ((unsigned char*)p)[i] = io.feed++;
	if(io.ans < 0) errno = io.err;
	return io.ans;
}
ssize_t __wrap_write(int fd, const void* p, size_t n)
{
	if(!io.on) return __real_write(fd, p, n);
	io.calls++; io.fd = fd; io.ptr = p; io.n = n; io.rd = false;
	if(n < 0x7fffffff && io.ans > (int)n) { io.ans = (int)n; }
	if(io.ans > 0 && !io.huge) memcpy(io.got, p, io.ans);
	if(io.ans < 0) errno = io.err;
	return io.ans;
}
#define OP(a, e) do{ io.on = true; io.ans = (a); io.err = (e); io.calls = 0; errno = 0; }while(0)
#define OFF() (io.on = false)
static int errs[] = {EINTR, EAGAIN, EIO};

static void inv(strbuf_t* b, strbuf_t* was, int cap, const char* what)
{
	VH_CHECK(b == was && b->capacity == cap, "%s: buffer moved or resized", what);
	VH_CHECK(b->size >= 0 && b->size <= cap && b->cstr[b->size] == 0, "%s: size %d capacity %d or not terminated", what, b->size, cap);
}
//	one read. m = model content, returns new size
static int do_read(strbuf_t** pb, unsigned char* m, int size, int cap, int ans, int err)
{
	strbuf_t* was = *pb;
	unsigned char f = io.feed;
	OP(ans, err);
	int r = strbuf_append_read(pb, FD), e = errno;
	OFF();
	vh->trans++; vh->traces++;
	VH_CHECK(io.calls == 1 && io.rd && io.fd == FD, "strbuf_append_read made %d calls (fd %d)", io.calls, io.fd);
	VH_CHECK(io.n == (size_t)(cap-size) && io.ptr == was->cstr+size, "strbuf_append_read with %d of %d used asked for %zu bytes at offset %ld", size, cap, io.n, (long)((char*)io.ptr - was->cstr));
	VH_CHECK(r == io.ans, "strbuf_append_read returned %d, read returned %d", r, io.ans);
	if(ans < 0) VH_CHECK(e == err, "strbuf_append_read lost errno");
	for(int i=0; i<io.ans; i++) m[size++] = f++;
	inv(*pb, was, cap, "strbuf_append_read");
	VH_CHECK((*pb)->size == size && !memcmp((*pb)->cstr, m, size), "after reading %d bytes the buffer holds %s, expected %s", io.ans, vh_q((*pb)->cstr, (*pb)->size), vh_q(m, size));
	return size;
}
static int do_write(strbuf_t** pb, unsigned char* m, int size, int cap, int ans, int err)
{
	strbuf_t* was = *pb;
	OP(ans, err);
	int r = strbuf_write(FD, pb), e = errno;
	OFF();
	vh->trans++; vh->traces++;
	VH_CHECK(io.calls == 1 && !io.rd && io.fd == FD, "strbuf_write made %d calls (fd %d)", io.calls, io.fd);
	VH_CHECK(io.n == (size_t)size && io.ptr == was->cstr, "strbuf_write of %d bytes offered %zu", size, io.n);
	VH_CHECK(r == io.ans, "strbuf_write returned %d, write returned %d", r, io.ans);
	if(ans < 0) VH_CHECK(e == err, "strbuf_write lost errno");
	if(io.ans > 0)
	{
		VH_CHECK(!memcmp(io.got, m, io.ans), "strbuf_write sent the wrong bytes");
		memmove(m, m+io.ans, size-io.ans);
		size -= io.ans;
	}
	inv(*pb, was, cap, "strbuf_write");
	VH_CHECK((*pb)->size == size && !memcmp((*pb)->cstr, m, size), "after %d bytes were written the buffer holds %s, expected %s", io.ans, vh_q((*pb)->cstr, (*pb)->size), vh_q(m, size));
	return size;
}
//	every history of reads, writes and their answers: depth first
static int maxd;
static void history(strbuf_t** pb, unsigned char* m, int size, int cap, int depth)
{
	if((unsigned long)depth > vh->maxdepth) vh->maxdepth = depth;
	vh->states++;
	if(depth == maxd) return;
	for(int op=0; op<2; op++)
	{
		int most = op ? size : cap-size;
		for(int ans=-3; ans<=most; ans++)
		{
			int a = ans < 0 ? -1 : ans, e = ans < 0 ? errs[-ans-1] : 0;
			if(ans < -1 && depth > 1) continue;
			//	remember the state, take the step, come back
			unsigned char keep[300], feed = io.feed;
			int ks = size;
			memcpy(keep, m, size);
			int ns = op ? do_write(pb, m, size, cap, a, e) : do_read(pb, m, size, cap, a, e);
			history(pb, m, ns, cap, depth+1);
			memcpy(m, keep, ks);
			io.feed = feed;
			(*pb)->size = ks;
			memcpy((*pb)->cstr, keep, ks);
			(*pb)->cstr[ks] = 0;
			if(cap > ks) memset((*pb)->cstr+ks+1, 0x5B, cap-ks);
		}
	}
}
//	every way of writing out a view
static void view_history(strview_t v, const char* all, int n, int done, int depth, int zeros)
{
	if((unsigned long)depth > vh->maxdepth) vh->maxdepth = depth;
	vh->states++;
	for(int ans=-1; ans<=n-done; ans++)
	{
		if(ans <= 0 && zeros == 2) continue;
		strview_t w = v;
		int e = errs[depth%3];
		OP(ans, e);
		int r = strview_write(FD, &w), er = errno;
		OFF();
		vh->trans++; vh->traces++;
		VH_CHECK(io.calls == 1 && io.fd == FD && !io.rd, "strview_write made %d calls", io.calls);
		VH_CHECK(io.n == (size_t)(n-done) && (n == done || io.ptr == all+done), "strview_write after %d of %d bytes offered %zu", done, n, io.n);
		VH_CHECK(r == ans, "strview_write returned %d, write returned %d", r, ans);
		if(ans < 0) VH_CHECK(er == e, "strview_write lost errno");
		if(ans <= 0) VH_CHECK(w.data == v.data && w.size == v.size, "strview_write: write returned %d but the view changed", ans);
		else
		{
			VH_CHECK(!memcmp(io.got, all+done, ans), "strview_write sent the wrong bytes");
			VH_CHECK(w.size == n-done-ans && (w.size ? w.data == all+done+ans : !w.data || (w.data >= all && w.data <= all+n)), "strview_write: %d bytes accepted of %d, %d left", ans, n-done, w.size);
		}
		if(w.size || (ans <= 0 && w.data)) view_history(w, all, n, done + (ans > 0 ? ans : 0), depth+1, zeros + (ans <= 0));
	}
}
int main(int argc, char** argv)
{
	vh_init(argc, argv);
	bm_init(70000, 70000);
	int kind, cap, size, i;
	static unsigned char m[70000], t[70000];
	for(i=0; i<70000; i++) t[i] = (unsigned char)(200 + i*7 + i/251);
	vh_section("every history of reads and writes");
	for(kind=0; kind<NB_KINDS; kind++) for(cap=0; cap<=(vh_thorough?5:4); cap++) for(size=0; size<=cap; size++)
	{
		if(!vh_slice()) continue;
		for(maxd=1; maxd<=(vh_thorough?6:5); maxd++)
		{
			if(!vh_case()) continue;
			m_t s = {kind, cap, size, t};
			VH_DESC("%s, %d calls", m_str(&s), maxd);
			VH_NONTRIV(cap > 0);
			strbuf_t* b = bm_make(&s);
			memcpy(m, t, size);
			io.feed = 1;
			history(&b, m, size, cap, 0);
		}
	}
	vh_section("every answer in every state");
	for(kind=0; kind<NB_KINDS; kind++) for(cap=0; cap<=(vh_thorough?70:40); cap++)
	{
		if(!vh_slice()) continue;
		for(size=0; size<=cap; size++) for(int op=0; op<2; op++) for(int ans=-3; ans<=(op ? size : cap-size); ans++)
		{
			if(!vh_case()) continue;
			m_t s = {kind, cap, size, t};
			VH_DESC("%s answering %d on %s", op ? "write" : "read", ans, m_str(&s));
			VH_NONTRIV(ans > 0);
			strbuf_t* b = bm_make(&s);
			memcpy(m, t, size);
			io.feed = 9;
			int a = ans < 0 ? -1 : ans, e = ans < 0 ? errs[-ans-1] : 0;
			if(op) do_write(&b, m, size, cap, a, e); else do_read(&b, m, size, cap, a, e);
		}
	}
	vh_section("every two neighbouring bytes");
	for(int x=0; x<256; x++)
	{
		if(!vh_slice()) continue;
		for(int y=0; y<256; y++) for(i=0; i<3; i++)
		{
			static const int d[] = {1, -1, 0};
			unsigned char u[4] = {x, y, 'k', y};
			if(!vh_case()) continue;
			//	content x y .. ; the bytes read follow it, or begin with y and y, y+1 or x
			m_t s = {(x+y+i) % NB_KINDS, 8, i == 2 ? 1 : 4, u};
			VH_DESC("%s, next read %02x", m_str(&s), i == 2 ? y : x+d[i]);
			VH_NONTRIV(1);
			strbuf_t* b = bm_make(&s);
			memcpy(m, u, 4);
			io.feed = i == 2 ? y : x + d[i];
			size = do_read(&b, m, s.size, 8, 1 + i, 0);
			size = do_write(&b, m, size, 8, 1 + i, 0);
			size = do_read(&b, m, size, 8, 2, 0);
			size = do_write(&b, m, size, 8, 2, 0);
			char* p = vh_slot_set(&ext_slot[1], u, 4, 3);
			strview_t v = RV(p, 4);
			OP(1 + i, 0); int r = strview_write(FD, &v); OFF();
			vh->trans++;
			VH_CHECK(r == 1+i && io.calls == 1 && io.n == 4 && io.ptr == p && !memcmp(io.got, u, r) && v.data == p+r && v.size == 4-r, "strview_write of %s, %d accepted: returned %d after %d calls, %d left", vh_q(u, 4), 1+i, r, io.calls, v.size);
		}
	}
	vh_section("large buffers");
	{
		static const int caps[] = {255, 256, 1000, 4096, 32768, 65535, 65536, 66000};
		for(i=0; i<8; i++) for(kind=0; kind<NB_KINDS; kind++)
		{
			if(!vh_slice()) continue;
			cap = caps[i];
			int sz[] = {0, 1, cap/2, cap-1, cap};
			for(int q=0; q<5; q++) for(int w=0; w<12; w++)
			{
				if(!vh_case()) continue;
				size = sz[q];
				m_t s = {kind, cap, size, t};
				VH_DESC("large %s of %d, %d used, %d", w&1 ? "write" : "read", cap, size, w/2);
				strbuf_t* b = bm_make(&s);
				memcpy(m, t, size);
				int most = w&1 ? size : cap-size, ans[] = {-1, 0, 1, most/2, most-1, most};
				int a = ans[w/2]; if(a < -1) a = 0; if(a > most) a = most;
				VH_NONTRIV(a > 0);
				if(w&1) do_write(&b, m, size, cap, a, EIO); else do_read(&b, m, size, cap, a, EIO);
			}
		}
	}
	vh_section("every way of writing a view");
	for(size=0; size<=(vh_thorough?11:8); size++)
	{
		if(!vh_slice()) continue;
		if(!vh_case()) continue;
		VH_DESC("view of %d bytes", size);
		VH_NONTRIV(size > 0);
		char* p = vh_slot_set(&ext_slot[1], t, size, 3);
		view_history(RV(p, size), p, size, 0, 0, 0);
		VH_CHECK(!memcmp(p, t, size), "strview_write changed the text");
	}
	for(size=0; size<=(vh_thorough?600:300); size++)
	{
		if(!vh_slice()) continue;
		for(int ans=-1; ans<=size; ans++)
		{
			if(!vh_case()) continue;
			VH_DESC("view of %d bytes, %d accepted", size, ans);
			VH_NONTRIV(ans > 0);
			char* p = vh_slot_set(&ext_slot[1], t, size, size&7);
			strview_t v = RV(p, size);
			OP(ans, EINTR);
			int r = strview_write(FD, &v);
			OFF();
			vh->trans++;
			VH_CHECK(r == ans && io.calls == 1 && io.n == (size_t)size && (!size || io.ptr == p), "strview_write of %d bytes, %d accepted: returned %d after %d calls", size, ans, r, io.calls);
			if(ans <= 0) VH_CHECK(v.data == p && v.size == size, "strview_write changed the view when write returned %d", ans);
			else VH_CHECK(v.size == size-ans && (!v.size || v.data == p+ans), "strview_write of %d bytes, %d accepted: %d left", size, ans, v.size);
		}
	}
	vh_section("every error number, every descriptor");
	{
		static const int more[] = {255, 256, 257, 1023, 1024, 1025, 4096, 32767, 32768, 65535, 65536, 65537, 0x10003, 1<<24, INT_MAX-1, INT_MAX, -1, -2, -100, -256, INT_MIN};
		for(i=0; i<=133; i++)
		{
			if(!vh_slice()) continue;
			for(int k=0; k<2; k++) for(int cap=0; cap<=18; cap+=6) for(int sz=0; sz<=cap; sz+=3)
			{
				unsigned char m[40];
				if(!vh_case()) continue;
				VH_DESC("error number %d, %d of %d bytes used", i, sz, cap);
				VH_NONTRIV(sz && sz < cap);
				for(int q=0; q<sz; q++) m[q] = q*7;
				m_t st = {k ? K_DOWN : K_FIXED, cap, sz, m};
				strbuf_t* b = bm_make(&st);
				int s1 = do_read(&b, m, sz, cap, -1, i);
				s1 = do_write(&b, m, s1, cap, -1, i);
				s1 = do_read(&b, m, s1, cap, 2, 0);
				s1 = do_write(&b, m, s1, cap, 1, 0);
				do_write(&b, m, s1, cap, -1, i);
				char* p = vh_slot_set(&ext_slot[1], t, sz, 3);
				strview_t v = RV(p, sz);
				OP(-1, i); int r = strview_write(FD, &v), er = errno; OFF();
				vh->trans++;
				VH_CHECK(r == -1 && er == i && io.calls == 1 && v.data == p && v.size == sz, "strview_write with error %d: returned %d after %d calls, error %d", i, r, io.calls, er);
			}
		}
		for(i=0; i<140+21; i++)
		{
			if(!vh_slice()) continue;
			for(int ans=-1; ans<=3; ans++)
			{
				unsigned char m[40] = "abc";
				if(!vh_case()) continue;
				FD = i < 140 ? i : more[i-140];
				VH_DESC("descriptor %d, answer %d", FD, ans);
				VH_NONTRIV(1);
				m_t st = {K_FIXED, 10, 3, m};
				strbuf_t* b = bm_make(&st);
				int s1 = do_write(&b, m, 3, 10, ans, ans < 0 ? EBADF : 0);
				do_read(&b, m, s1, 10, ans, ans < 0 ? EBADF : 0);
				char* p = vh_slot_set(&ext_slot[1], t, 3, 3);
				strview_t v = RV(p, 3);
				OP(ans, EBADF); int r = strview_write(FD, &v); OFF();
				vh->trans++;
				VH_CHECK(r == ans && io.calls == 1 && io.fd == FD && io.n == 3 && io.ptr == p, "strview_write to %d returned %d after %d calls (descriptor %d)", FD, r, io.calls, io.fd);
				FD = 77;
			}
		}
	}
	vh_section("sizes near INT_MAX");
	{
		//	reserved address space whose untouched pages read as zero
		long region = (long)INT_MAX + (2L<<20);
		char* base = mmap(NULL, region, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
		if(base == MAP_FAILED) { perror("mmap"); return 2; }
		static const int sz[] = {0, 1, 100, INT_MAX/2, INT_MAX/2+1, INT_MAX-70000, INT_MAX-4096, INT_MAX-17, INT_MAX-16, INT_MAX-1, INT_MAX};
		int N = sizeof(sz)/sizeof(*sz);
		io.huge = true;
		for(i=0; i<N; i++) for(int j=0; j<N; j++) for(int k=-2; k<=2; k++) for(int op=0; op<3; op++)
		{
			long left = op ? sz[i] : (long)INT_MAX - sz[i], ans = j == 0 ? -1 : j == 1 ? 0 : (long)sz[j]+k;
			if(j < 2 && k) continue;
			if(ans > left || ans < -1 || (ans == -1 && j)) continue;
			if(op == 1 && ans > 0 && left-ans > (vh_thorough ? INT_MAX : 1<<17)) continue;
			if(!vh_slice() || !vh_case()) continue;
			VH_DESC("%s with a size of %d, answer %ld", op == 0 ? "strbuf_append_read" : op == 1 ? "strbuf_write" : "strview_write", sz[i], ans);
			VH_NONTRIV(ans > 0);
			madvise(base, region, MADV_DONTNEED);
			vh->trans++;
			if(op == 2)
			{
				strview_t v = {base, sz[i]};
				OP((int)ans, EIO); int r = strview_write(FD, &v); OFF();
				VH_CHECK(r == ans && io.calls == 1 && io.n == (size_t)sz[i], "strview_write of %d bytes, %ld accepted: returned %d after %d calls", sz[i], ans, r, io.calls);
				VH_CHECK(v.size == (ans > 0 ? left-ans : left) && (!v.size || v.data == base + (ans > 0 ? ans : 0)), "strview_write of %d bytes, %ld accepted: %d left", sz[i], ans, v.size);
				continue;
			}
			strbuf_t* b = strbuf_create_fixed(base, sizeof(strbuf_t) + (size_t)INT_MAX + 1), *was = b;
			VH_CHECK(b && b->capacity == INT_MAX, "fixed buffer of INT_MAX");
			b->size = sz[i];
			for(int q=1; q<=40 && q<=sz[i]; q++) b->cstr[sz[i]-q] = 'a' + q%26;
			OP((int)ans, EIO);
			int r = op ? strbuf_write(FD, &b) : strbuf_append_read(&b, FD);
			OFF();
			VH_CHECK(r == ans && io.calls == 1 && io.n == (size_t)left, "returned %d after %d calls, the last for %zu bytes", r, io.calls, io.n);
			long want = ans <= 0 ? sz[i] : op ? left-ans : sz[i]+ans;
			VH_CHECK(b == was && b->capacity == INT_MAX && b->size == want && b->cstr[want] == 0, "size %d, expected %ld", b->size, want);
			long at = op ? want : sz[i];
			for(int q=1; q<=40 && q<=at && q<=sz[i]; q++) VH_CHECK(b->cstr[at-q] == 'a' + q%26, "content changed at %ld", at-q);
			if(!op && ans > 0) VH_CHECK((b->cstr[at] == 'f' || ans == 1) && b->cstr[want-1] == 'l', "the bytes read are not at the end");
		}
		io.huge = false;
		munmap(base, region);
	}
	vh_section("a real pipe");
	if(vh_slice())
		for(int chunk=1; chunk<=64; chunk++)
		{
			if(!vh_case()) continue;
			VH_DESC("pipe with a buffer of %d", chunk);
			int fd[2], n = 3000, sent = 0, k = 0;
			static unsigned char out[3001];
			if(pipe(fd)) vh_fail("harness: no pipe");
			fcntl(fd[0], F_SETFL, O_NONBLOCK); fcntl(fd[1], F_SETFL, O_NONBLOCK);
			char* p = vh_slot_set(&ext_slot[1], t, n, 0);
			strview_t v = RV(p, n);
			m_t s = {K_FIXED, chunk, 0, t};
			strbuf_t* b = bm_make(&s);
			while(k < n)
			{
				int r = strview_write(fd[1], &v);
				if(r > 0) sent += r;
				VH_CHECK(v.size == n-sent, "%d bytes written, %d left", sent, v.size);
				r = strbuf_append_read(&b, fd[0]);
				VH_CHECK(r > 0 && b->size == r, "reading a pipe: %d", r);
				memcpy(out+k, b->cstr, b->size); k += b->size;
				strbuf_assign(&b, RV("", 0));
				vh->trans += 2;
			}
			VH_CHECK(k == n && !memcmp(out, t, n), "the bytes read differ from those written");
			VH_CHECK(strbuf_append_read(&b, fd[0]) == -1 && errno == EAGAIN && b->size == 0, "empty pipe");
			close(fd[1]);
			VH_CHECK(strbuf_append_read(&b, fd[0]) == 0 && b->size == 0, "end of file");
			close(fd[0]);
		}
	{
		static char fx[sizeof(strbuf_t)+5] __attribute__((aligned(16)));
		TRIPLE_EACH(b)
		{
			VH_DESC("%s", vh_q(b, 3));
			VH_NONTRIV(1);
			unsigned char m3[8];
			strbuf_t* f = strbuf_create_fixed(fx, sizeof(fx));
			//	two of the bytes in the buffer, the third and its successor arrive; then all leave in two pieces
			strbuf_append_char(&f, b[0]); strbuf_append_char(&f, b[1]);
			memcpy(m3, b, 2);
			io.feed = b[2];
			int sz = do_read(&f, m3, 2, 4, 2, 0);
			sz = do_write(&f, m3, sz, 4, 1 + (b[2] & 1), 0);
			sz = do_write(&f, m3, sz, 4, 9, 0);
			VH_CHECK(!sz, "bytes left");
			strview_t v = RV((char*)b, 3);
			OP(1 + (b[2] & 1), 0); int r = strview_write(FD, &v); OFF();
			VH_CHECK(r == 1 + (b[2] & 1) && io.n == 3 && io.ptr == b && !memcmp(io.got, b, r) && v.data == (char*)b+r && v.size == 3-r, "strview_write of %s, %d accepted: %d left", vh_q(b, 3), r, v.size);
			vh->trans++;
		}
		free(b);
	}
	return vh_end();
}
