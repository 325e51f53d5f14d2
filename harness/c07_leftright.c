//	C07 split_left and split_right
#include "vh.h"
#include "triple.h"
#include "huge.h"
#include "refview.h"

static void left(strview_t src, strview_t pos)
{
	strview_t v = src, r = strview_split_left(&v, pos);
	if(src.data && pos.data && pos.data >= src.data && pos.data <= src.data+src.size)
	{
		int n = pos.data - src.data;
		VH_CHECK(r.data == src.data && r.size == n, "split_left(%s, pos at %d) returned %s", rv_str(src), n, rv_str(r));
		VH_CHECK(v.data == src.data+n && v.size == src.size-n, "split_left(%s, pos at %d) left %s", rv_str(src), n, rv_str(v));
	}
	else
	{
		VH_CHECK(!r.data && !r.size, "split_left(%s, pos %+ld) returned %s, expected an invalid view", rv_str(src), (long)(pos.data-src.data), rv_str(r));
		VH_CHECK(v.data == src.data && v.size == src.size, "split_left(%s, pos %+ld) modified the source", rv_str(src), (long)(pos.data-src.data));
	}
}
static void right(strview_t src, strview_t pos)
{
	strview_t v = src, r = strview_split_right(&v, pos);
	const char* e = pos.data ? pos.data + pos.size : NULL;
	if(src.data && pos.data && pos.data >= src.data && e <= src.data+src.size)
	{
		int n = e - src.data;
		VH_CHECK(r.data == e && r.size == src.size-n, "split_right(%s, pos end %d) returned %s", rv_str(src), n, rv_str(r));
		VH_CHECK(v.data == src.data && v.size == n, "split_right(%s, pos end %d) left %s", rv_str(src), n, rv_str(v));
	}
	else if(src.data && pos.data && pos.data < src.data && e >= src.data && e <= src.data+src.size)
	{
		//	pos overlaps the start of the source: either it counts as inside, or it does not
		bool inside = r.data == e && r.size == src.data+src.size-e && v.data == src.data && v.size == e-src.data;
		bool outside = !r.data && !r.size && v.data == src.data && v.size == src.size;
		VH_CHECK(inside || outside, "split_right(%s, overlapping pos) returned %s leaving %s", rv_str(src), rv_str(r), rv_str(v));
	}
	else
	{
		VH_CHECK(!r.data && !r.size, "split_right(%s, pos %+ld size %d) returned %s, expected an invalid view", rv_str(src), (long)(pos.data-src.data), pos.size, rv_str(r));
		VH_CHECK(v.data == src.data && v.size == src.size, "split_right(%s, pos %+ld) modified the source", rv_str(src), (long)(pos.data-src.data));
	}
}
int main(int argc, char** argv)
{
	static char txt[140000];
	int L, i, l, k, m;
	vh_slot_t s;
	vh_init(argc, argv);
	vh_slot_init(&s, 140064);
	for(i=0; i<140000; i++) txt[i] = "pq\0rs\xfft"[i%7];
	L = vh_thorough ? 34 : 20;
	vh_section("every window of a text split at every window of the same text");
	for(i=0; i<=L; i++) for(l=0; i+l<=L; l++)
	{
		if(!vh_slice()) continue;
		for(k=0; k<=L; k++) for(m=0; k+m<=L; m++)
		{
			if(!vh_case()) continue;
			//	only the source itself is accessible, the position is not read
			char* p = vh_slot_set(&s, txt+i, l, 32 + i);
			VH_DESC("source %d+%d, position %d+%d", i, l, k, m);
			VH_NONTRIV(k >= i && k+m <= i+l);
			left(RV(p, l), RV(p-i+k, m));
			right(RV(p, l), RV(p-i+k, m));
		}
	}
	vh_section("every two bytes at the border");
	for(int x=0; x<256; x++)
	{
		if(!vh_slice()) continue;
		for(int y=0; y<256; y++)
		{
			char t[5] = {x, y, 'b', x, y};
			if(!vh_case()) continue;
			char* p = vh_slot_set(&s, t, 5, 32);
			strview_t v = RV(p, 5);
			VH_DESC("%s split everywhere", rv_str(v));
			VH_NONTRIV(1);
			for(i=0; i<=5; i++) for(l=0; i+l<=5; l++) { left(v, RV(p+i, l)); right(v, RV(p+i, l)); }
		}
	}
	vh_section("long sources: every position");
	static const int big[] = {100,126,127,128,129,130,254,255,256,257,258,600,1024,4096};
	for(int b=0; b<14; b++) for(m=0; m<3; m++)
	{
		if(!vh_slice()) continue;
		for(k=-20; k<=big[b]+20; k++)
		{
			if(!vh_case()) continue;
			char* p = vh_slot_set(&s, txt, big[b], 32);
			VH_DESC("source of %d, position %d+%d", big[b], k, m);
			VH_NONTRIV(k >= 0 && k+m <= big[b]);
			left(RV(p, big[b]), RV(p+k, m));
			right(RV(p, big[b]), RV(p+k, m));
		}
	}
	vh_section("sources longer than 16 bit lengths: positions around every power of two");
	{
		static const int H[] = {32767,32768,32769,65535,65536,65537,131071,131072,131073};
		for(int b=0; b<9; b++)
		{
			if(!vh_slice()) continue;
			char* p = vh_slot_set(&s, txt, H[b], 32);
			for(int e=0; e<19; e++) for(i=-3; i<=3; i++) for(m=0; m<6; m++)
			{
				k = (e == 18 ? H[b] : (1<<e)) + i;
				int l[] = {0, 1, H[b]-k, H[b]-k+1, 32768, 65536};
				if(l[m] < 0 || !vh_case()) continue;
				VH_DESC("source of %d, position %d+%d", H[b], k, l[m]);
				VH_NONTRIV(k >= 0 && k+l[m] <= H[b]);
				left(RV(p, H[b]), RV(p+k, l[m]));
				right(RV(p, H[b]), RV(p+k, l[m]));
			}
		}
	}
	vh_section("positions far away, invalid and NULL");
	if(vh_slice())
		for(l=0; l<20; l++)
		{
			strview_t z = RV_INVALID;
			if(!vh_case()) continue;
			char* p = vh_slot_set(&s, txt, l, 32);
			VH_DESC("source of %d", l);
			static char away[8];
			char* heap = malloc(8);
			strview_t other[] = { RV(away,0), RV(away,8), RV(heap,0), RV(heap,8), RV((char*)main,1), RV(p+4294967296L, 1), RV(p-4294967296L, 1), RV(p+4294967296L+l/2, 0), RV(p+2147483648L, 1), RV(p-2147483648L, 1), z };
			for(i=0; i<11; i++)
			{
				left(RV(p,l), other[i]); right(RV(p,l), other[i]);
				left(z, other[i]); right(z, other[i]);
				strview_t r = strview_split_left(NULL, other[i]);
				VH_CHECK(!r.data && !r.size, "split_left(NULL)");
				r = strview_split_right(NULL, other[i]);
				VH_CHECK(!r.data && !r.size, "split_right(NULL)");
			}
			left(z, RV(p,l)); right(z, RV(p,l));
			free(heap);
		}
	HUGE_EACH(i)
	{
		int n = HZ[i], k, m;
		char* a = huge_text(n+20, 'x');
		int at[] = {-10, -1, 0, 1, n/2, (1<<20)-1, 1<<20, n-1, n, n+1, n+10};
		VH_DESC("splits of a text of %d", n);
		VH_NONTRIV(1);
		for(k=0; k<11; k++) for(m=0; m<8; m++)
		{
			int len = m == 5 ? (1<<20)-1 : m == 6 ? 1<<20 : m == 7 ? n : m;
			if(at[k]+10+len > n+20) continue;
			left(RV(a+10, n), RV(a+10+at[k], len)); right(RV(a+10, n), RV(a+10+at[k], len));
			vh->trans += 2;
		}
		free(a);
	}
	{
		TRIPLE_EACH(b)
		{
			VH_DESC("%s", vh_q(b, 3));
			VH_NONTRIV(1);
			strview_t v = RV((char*)b, 3);
			left(v, RV(v.data+1, 1)); right(v, RV(v.data+1, 1)); left(v, RV(v.data+2, 1)); right(v, RV(v.data, 1));
			vh->trans += 4;
		}
		free(b);
	}
	return vh_end();
}
