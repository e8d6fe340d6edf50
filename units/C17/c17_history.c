/*VF
kind: history
functions: mplite_init mplite_malloc mplite_calloc mplite_free mplite_realloc mplite_resize mplite_maxmem mplite_freemem mplite_roundup
fuzz: 25
*/
#include "vf.h"
#include "common_macro.h"
#include <stdio.h>
#undef ASSERT
#define ASSERT(x) ENSURES(x, "internal assertion")
#include "mem/mplite.h"
#include "src/mem/mplite.c"
#define NB 64
static int held; static int la(void *a) { ENSURES(!held, "lock taken once"); held = 1; return 0; } static int lr(void *a) { ENSURES(held, "lock released once"); held = 0; return 0; }
static struct { unsigned char *p; int n, full; unsigned char seed; } b[NB];
static void chk(mplite_t *h, int i) { for (int k = 0; k < b[i].n; k++) ENSURES(b[i].p[k] == (unsigned char)(b[i].seed + k * 3), "a live block keeps its content"); }
static void put(mplite_t *h, int i, unsigned char *p, int n, unsigned char *m, int pool)
{
	static unsigned char sd; int full = mplite_roundup(h, n); ENSURES(p >= m && p + full <= m + pool && full >= n, "inside the pool and large enough"); ENSURES((p - m) % full == 0 || full > pool, "aligned");
	for (int j = 0; j < NB; j++) if (b[j].p && j != i) ENSURES(p + full <= b[j].p || b[j].p + b[j].full <= p, "overlaps no live block");
	b[i].p = p; b[i].n = n; b[i].full = full; b[i].seed = ++sd; for (int k = 0; k < n; k++) p[k] = (unsigned char)(sd + k * 3);
}
void vf_harness(void)
{
	static unsigned char raw[5000] __attribute__((aligned(16))); mplite_t H, *h = &H; mplite_lock_t L = { &held, la, lr }; held = 0; memset(b, 0, sizeof b);
	int bs = 9 + (int)SZ(0, 4900), ma = 1 + U8() % 70, r = mplite_init(h, raw, bs, ma, &L); ENSURES(r == MPLITE_OK, "made"); int pool = h->nBlock * h->szAtom; ENSURES(pool + h->nBlock <= bs && h->szAtom >= ma, "layout");
	int max0 = mplite_maxmem(h), free0 = mplite_freemem(h); ENSURES(free0 == pool, "everything is free");
	uint32_t ops = SZ(0, 150); int out = 0, cnt = 0;
	for (uint32_t o = 0; o < ops; o++) {
		int i = U8() % NB, op = U8() % 8, n = 1 + (int)(BOOL() ? SZ(0, 60) : SZ(0, 1500)); int mx = mplite_maxmem(h);
		if (op < 4 && !b[i].p) {
			int full = mplite_roundup(h, n); unsigned char *p = op == 3 ? mplite_calloc(h, n) : mplite_malloc(h, n); ENSURES((p != NULL) == (full <= mx), "succeeds exactly when a large enough block is free"); if (p) { if (op == 3) for (int k = 0; k < n; k++) ENSURES(p[k] == 0, "zeroed"); put(h, i, p, n, raw, pool); out += b[i].full; cnt++; }
		} else if (op < 6 && b[i].p) { chk(h, i); mplite_free(h, b[i].p); out -= b[i].full; cnt--; b[i].p = NULL; }
		else if (b[i].p) {
			if (BOOL()) { n = 1; while (n < 1500 && U8() % 8) n <<= 1; } unsigned char old[1600]; int on = b[i].n; memcpy(old, b[i].p, (size_t)on); unsigned char *p = mplite_realloc(h, b[i].p, n);
			if (p == b[i].p) { ENSURES(n <= b[i].full, "kept in place only when large enough"); b[i].n = on < n ? on : n; chk(h, i); }
			else if (p) { ENSURES(memcmp(p, old, (size_t)(on < n ? on : n)) == 0, "content preserved"); out -= b[i].full; put(h, i, p, n, raw, pool); out += b[i].full; }
			else { ENSURES(n > b[i].full || (n & (n - 1)), "what fits in place is not refused"); chk(h, i); }
			ENSURES(mplite_resize(h, b[i].p, 1) == MPLITE_OK, "resize");
		}
		for (int j = 0; j < NB; j++) if (b[j].p) chk(h, j);
		ENSURES((int)h->currentOut == out && (int)h->currentCount == cnt && mplite_freemem(h) == pool - out && !held, "statistics match the live blocks");
		ENSURES((int)h->maxOut >= out && (int)h->maxCount >= cnt, "peaks");
	}
	for (int j = 0; j < NB; j++) if (b[j].p) { chk(h, j); mplite_free(h, b[j].p); }
	ENSURES(mplite_maxmem(h) == max0 && mplite_freemem(h) == free0 && h->currentOut == 0, "freeing everything restores the initial state");
	if (max0) { void *p = mplite_malloc(h, max0); ENSURES(p, "a maximal allocation succeeds again"); mplite_free(h, p); }
}
