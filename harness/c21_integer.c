//	C21 values and range errors of the integer conversions
#include "numcall.h"
#include "triple.h"
static int fmt(unsigned char* d, i128 v, int base, bool upper, int zeros, bool plus, bool prefix)
{
	char b[140]; int k = 140, n = 0;
	u128 u = v < 0 ? -(u128)v : (u128)v;
	do { int g = (int)(u % base); b[--k] = g < 10 ? '0'+g : (upper?'A':'a')+g-10; } while(u /= base);
	if(v < 0) d[n++] = '-'; else if(plus) d[n++] = '+';
	if(prefix && base != 10) { d[n++] = '0'; d[n++] = base == 2 ? (upper?'B':'b') : upper?'X':'x'; }
	memset(d+n, '0', zeros); n += zeros;
	memcpy(d+n, b+k, 140-k);
	return n + 140-k;
}
static const int bopt[] = {0, STRNUM_BASE_BIN, STRNUM_BASE_HEX};
static const int bases[] = {10, 2, 16};
//	one text, in each type
static void types(const unsigned char* t, int n, int opt, int which)
{
	const char* p = vh_slot_set(&nslot, t, n, n&7);
	for(int ty=0; ty<NIT; ty++)
		if(which < 0 || which == ty)
			judge_int(t, n, p, ty, opt, J_VALUE|J_ERR, true);
}
static void number(i128 v, int which, bool deep)
{
	unsigned char t[2000];
	for(int b=0; b<3; b++) for(int u=0; u<(b==2?2:1); u++) for(int z=0; z<(deep?5:2); z++) for(int pre=0; pre<2; pre++) for(int plus=0; plus<(deep && v >= 0 ? 2 : 1); plus++)
	{
		static const int zs[] = {0, 1, 19, 64, 700};
		int n;
		if(pre && b == 0) continue;
		if(!vh_case()) continue;
		n = fmt(t, v, bases[b], u, zs[z], plus, pre);
		VH_DESC("%s", vh_q(t, n));
		types(t, n, pre ? 0 : bopt[b], which);
	}
}
int main(int argc, char** argv)
{
	vh_init(argc, argv);
	vh_slot_init(&nslot, 3000);
	int i, k, ty;
	unsigned char t[2000];
	vh_section("every value of the 8 and 16 bit types and beyond");
	for(long b=-70000; b<=70000; b+=1000)
	{
		if(!vh_slice()) continue;
		for(long v=b; v<b+1000 && v<=70000; v++) number(v, -1, false);
	}
	vh_section("around every limit");
	for(ty=0; ty<NIT; ty++) for(k=0; k<2; k++)
		for(int o=-(vh_thorough?3000:300); o<=(vh_thorough?3000:300); o+=50)
		{
			if(!vh_slice()) continue;
			for(i=o; i<o+50; i++) number((k ? itype[ty].hi : itype[ty].lo) + i, ty, true);
		}
	vh_section("around powers of two, ten and sixteen, and multiples of the limits");
	for(k=0; k<96; k++)
	{
		if(!vh_slice()) continue;
		for(int s=-1; s<=1; s+=2)
		{
			for(i=-20; i<=20; i++) { number(s*(((i128)1<<k) + i), -1, false); number(s*(((i128)1<<k)*3 + i), -1, false); number(s*(((i128)1<<k)*5 + i), -1, false); }
			if(k < 27) { i128 p = 1; for(i=0; i<k; i++) p *= 10; for(int m=1; m<10; m++) for(i=-3; i<=3; i++) number(s*(m*p + i), -1, false); }
		}
		for(ty=0; ty<NIT; ty++) for(i=-3; i<=3; i++) { if(k > 1 && k < 50) { number(itype[ty].hi*k + i, ty, false); number(itype[ty].lo*k + i, ty, false); } }
	}
	vh_section("every digit of a limit replaced, inserted and removed");
	for(ty=0; ty<NIT; ty++) for(k=0; k<2; k++) for(int b=0; b<3; b++)
	{
		i128 L = k ? itype[ty].hi : itype[ty].lo;
		unsigned char base[200];
		int n = fmt(base, L, bases[b], b == 2 && k, 0, false, false), q, r;
		if(!vh_slice()) continue;
		for(q=0; q<n; q++)
			for(r=0; r<bases[b]; r++)
			{
				unsigned char c = r < 10 ? '0'+r : 'A'+r-10;
				if(base[q] == '-') continue;
				if(vh_case()) { memcpy(t, base, n); t[q] = c; VH_DESC("%s", vh_q(t, n)); types(t, n, bopt[b], ty); }
				if(vh_case()) { memcpy(t, base, q); t[q] = c; memcpy(t+q+1, base+q, n-q); VH_DESC("%s", vh_q(t, n+1)); types(t, n+1, bopt[b], ty); }
				if(vh_case()) { memcpy(t, base, n); t[n] = c; VH_DESC("%s", vh_q(t, n+1)); types(t, n+1, bopt[b], ty); }
				for(int q2=q+1; q2<n; q2++) for(int r2=0; r2<bases[b]; r2++)
					if(bases[b] <= 10 || vh_thorough || q2 == q+1 || q2 == n-1)
						if(vh_case()) { memcpy(t, base, n); t[q] = c; t[q2] = r2 < 10 ? '0'+r2 : 'a'+r2-10; VH_DESC("%s", vh_q(t, n)); types(t, n, bopt[b], ty); }
			}
		for(q=0; q<n; q++) if(base[q] != '-' && n > 1)
			if(vh_case()) { memcpy(t, base, q); memcpy(t+q, base+q+1, n-q-1); VH_DESC("%s", vh_q(t, n-1)); types(t, n-1, bopt[b], ty); }
	}
	vh_section("every length of digits");
	for(int b=0; b<3; b++) for(int d=1; d<bases[b]; d++)
	{
		if(!vh_slice()) continue;
		for(int z=0; z<3; z++) for(int s=0; s<2; s++) for(int len=1; len<=200; len++)
		{
			int n = 0;
			if(!vh_case()) continue;
			if(s) t[n++] = '-';
			memset(t+n, '0', z*40); n += z*40;
			for(i=0; i<len; i++) t[n++] = i && z == 2 ? '0' : d < 10 ? '0'+d : 'a'+d-10;
			VH_DESC("%s", vh_q(t, n));
			types(t, n, bopt[b], -1);
		}
	}
	vh_section("every byte and pair of bytes between digits");
	for(int x=0; x<256; x++)
	{
		static const char* pre[] = {"", "0", "1", "12", "007", "-1", "255", "1234567"};
		static const char* suf[] = {"", "0", "000", "123", "1234", "56789012"};
		if(!vh_slice()) continue;
		for(int y=-1; y<256; y++) for(int p=0; p<(y < 0 ? 8 : 4); p++) for(int s=0; s<(y < 0 ? 6 : 3); s++) for(int b=0; b<(y < 0 ? 3 : 1); b++)
		{
			if(!vh_case()) continue;
			int n = (int)strlen(pre[p]), q = (int)strlen(suf[s]);
			memcpy(t, pre[p], n); t[n++] = x;
			if(y >= 0) t[n++] = y;
			memcpy(t+n, suf[s], q); n += q;
			VH_DESC("%s", vh_q(t, n));
			if(y < 0)
			{
				//	and once more behind
				types(t, n, bopt[b], -1);
				t[n++] = x; memcpy(t+n, suf[s], q); n += q;
				types(t, n, bopt[b], -1);
			}
			else { types(t, n, bopt[b], 4); types(t, n, bopt[b], 7); }
		}
	}
	vh_section("every text of up to 4 hex digits");
	for(int a=0; a<22; a++)
	{
		static const char dg[] = "0123456789abcdefABCDEF";
		if(!vh_slice()) continue;
		int mx = vh_thorough ? 5 : 4;
		for(int n=1; n<=mx; n++) for(long x=0; x<vh_pow(22, n-1); x++)
		{
			if(!vh_case()) continue;
			t[0] = dg[a];
			vh_text(t+1, x, n-1, (const unsigned char*)dg, 22);
			VH_DESC("%s", vh_q(t, n));
			const char* p = vh_slot_set(&nslot, t, n, n&7);
			judge_int(t, n, p, 2, STRNUM_BASE_HEX, J_VALUE|J_ERR, true);
			judge_int(t, n, p, 6, STRNUM_BASE_HEX, J_VALUE|J_ERR, true);
			judge_int(t, n, p, 5, STRNUM_BASE_HEX, J_VALUE|J_ERR, true);
		}
	}
	{
		TRIPLE_EACH(b)
		{
			int ty = (b[0]*3 + b[1]*5 + b[2]) % NIT, bs = (b[0] + b[1] + b[2]) % 3;
			VH_DESC("%s", vh_q(b, 3));
			judge_int(b, 3, (char*)b, 7, 0, J_VALUE|J_SRC|J_ERR, false);
			judge_int(b, 3, (char*)b, ty, bopt[bs], J_VALUE|J_SRC|J_ERR, true);
		}
		free(b);
	}
	return vh_end();
}
