/*VF
kind: full
src: src/mem/mplite.c
functions: mplite_realloc mplite_calloc mplite_resize mplite_roundup mplite_maxmem mplite_size
unwind: 34
contractcalls: mplite_malloc_unsafe mplite_free_unsafe
nobmc: 1
san: nonat
cases: 8
tcases: 8 16 64 1024 65536
casejobs: 3
timeout: 150
assumes: mplite_malloc_unsafe and mplite_free_unsafe by their contracts (discharged in c17_malloc, c17_free)
*/
#include "vf.h"
#include "common_macro.h"
#include "mem/mplite.h"
#include <string.h>
static void *vf_k_mplite_malloc_unsafe(mplite_t *h, const int n); static void vf_k_mplite_free_unsafe(mplite_t *h, const void *p); static void *r_cpy(void *d, const void *s, size_t n); static void *r_set(void *d, int c, size_t n);
#define memcpy r_cpy
#define memset r_set
#include "src/mem/mplite.c"
#undef memcpy
#undef memset
#include "pool.inc"
static int vf_held, vf_acq, vf_rel, vf_nm, vf_nf, vf_b, vf_L, vf_nb2, vf_L2; static bool vf_lk; static size_t vf_off; static uint8_t vf_byte; static char *vf_p, *vf_q;
static int la(void *a) { ENSURES(a == &vf_held && !vf_held, "lock taken once"); vf_held = 1; vf_acq++; return 0; } static int lr(void *a) { ENSURES(a == &vf_held && vf_held, "lock released once"); vf_held = 0; vf_rel++; return 0; }
static void *vf_k_mplite_malloc_unsafe(mplite_t *h, const int n)
{
	ENSURES(vf_held || !vf_lk, "the pool changes under the lock"); ENSURES(!vf_nm && !vf_nf, "STUB one allocation"); vf_nm = 1;
	if (n <= 0 || n > MPLITE_MAX_ALLOC_SIZE || BOOL()) return NULL;
	vf_L2 = (int)RANGE(0, MPLITE_LOGMAX); vf_nb2 = (int)RANGE(0, (uint64_t)h->nBlock - 1); REQUIRES(vf_blk(h, vf_nb2, vf_L2) && ((int64_t)VF_ATOM << vf_L2) >= n && (vf_b < 0 || (long long)vf_nb2 + (1ll << vf_L2) <= vf_b || (long long)vf_b + (1ll << vf_L) <= vf_nb2));
	return vf_q = (char *)vf_mem + (size_t)vf_nb2 * VF_ATOM;
}
static void vf_k_mplite_free_unsafe(mplite_t *h, const void *p) { ENSURES(vf_held || !vf_lk, "the pool changes under the lock"); ENSURES(vf_nm && vf_q && p == vf_p && !vf_nf, "the old block is released once, after the new one was found"); vf_nf = 1; if (vf_off < ((size_t)VF_ATOM << vf_L)) vf_p[vf_off] = (char)U8(); }
static void *r_cpy(void *d, const void *s, size_t n) { ENSURES(d == vf_q && s == vf_p && !vf_nf && n <= ((size_t)VF_ATOM << vf_L) && n <= ((size_t)VF_ATOM << vf_L2), "copies from the old block to the new one, inside both"); if (vf_off < n) vf_q[vf_off] = vf_p[vf_off]; return d; }
static void *r_set(void *d, int c, size_t n) { if (d == (void *)vf_q && d) { ENSURES(n <= ((size_t)VF_ATOM << vf_L2), "clears inside the block"); if (vf_off < n) vf_q[vf_off] = (char)c; } return d; }
void vf_harness(void)
{
	mplite_t *h = vf_pool(); vf_held = vf_acq = vf_rel = vf_nm = vf_nf = 0; vf_q = NULL; vf_lk = BOOL(); h->lock.arg = &vf_held; h->lock.acquire = vf_lk ? la : NULL; h->lock.release = vf_lk ? lr : NULL;
	vf_b = -1; vf_off = U64(); int n = (int)U32(); bool nh = U8() % 16 == 0; uint8_t op = U8() % 5;
	if (op == 0 || op == 1) {
		vf_L = (int)RANGE(0, MPLITE_LOGMAX); vf_b = (int)RANGE(0, (uint64_t)h->nBlock - 1); REQUIRES(vf_blk(h, vf_b, vf_L) && h->aCtrl[vf_b] == vf_L); vf_p = (char *)vf_mem + (size_t)vf_b * VF_ATOM; size_t old = (size_t)VF_ATOM << vf_L; if (vf_off < old) vf_byte = (uint8_t)vf_p[vf_off];
		bool np = U8() % 16 == 0; void *arg = np ? NULL : vf_p;
		if (op == 1) { int r = mplite_resize(nh ? NULL : h, arg, n); ENSURES(vf_nm == 0 && (r != MPLITE_OK || (n > 0 && (size_t)n <= old)), "resize says yes only when the block is large enough"); ENSURES(vf_off >= old || (uint8_t)vf_p[vf_off] == vf_byte, "content kept"); return; }
		char *q = mplite_realloc(nh ? NULL : h, arg, n);
		ENSURES(!vf_held && vf_acq == vf_rel, "the lock is released");
		if (!q) { ENSURES(!vf_nf, "a failed reallocation leaves the old block allocated"); ENSURES(vf_off >= old || (uint8_t)vf_p[vf_off] == vf_byte, "and its content untouched"); ENSURES(n <= 0 || (n & (n - 1)) || nh || np || vf_nm, "refused for a reason"); REACH("refused"); }
		else if (q == vf_p) { ENSURES((size_t)n <= old && !vf_nf && !vf_nm, "kept in place when it is large enough"); ENSURES(vf_off >= old || (uint8_t)vf_p[vf_off] == vf_byte, "content kept"); REACH("kept"); }
		else { ENSURES(q == vf_q && vf_nf == 1 && ((size_t)VF_ATOM << vf_L2) >= (size_t)n, "moved to a block that is large enough, the old one released"); if (vf_off < old && vf_off < (size_t)n) ENSURES((uint8_t)q[vf_off] == vf_byte, "the content is preserved up to the smaller size"); REACH("moved"); }
	} else if (op == 2) {
		char *q = mplite_calloc(nh ? NULL : h, n); ENSURES(!vf_held && vf_acq == vf_rel, "the lock is released"); ENSURES(!q || (q == vf_q && n > 0), "a block"); if (q && vf_off < (size_t)n) { ENSURES(q[vf_off] == 0, "zeroed"); REACH("cleared"); }
	} else if (op == 3) {
		int r = mplite_roundup(nh ? NULL : h, n); if (nh || n < 1 || n > MPLITE_MAX_ALLOC_SIZE) ENSURES(r == 0, "refused"); else ENSURES(r >= n && r >= VF_ATOM && (r & (r - 1)) == 0 && (r == VF_ATOM || r / 2 < n), "the size such an allocation really takes");
	} else {
		int k = (int)RANGE(0, MPLITE_LOGMAX); for (int j = 0; j <= MPLITE_LOGMAX; j++) { int f = h->aiFreelist[j] = (int)U32(); REQUIRES(f == -1 || vf_blk(h, f, j)); }
		int r = mplite_maxmem(nh ? NULL : h); ENSURES(!vf_held && vf_acq == vf_rel, "the lock is released"); if (nh) { ENSURES(r == 0, "no pool"); return; }
		if (h->aiFreelist[k] >= 0) ENSURES((int64_t)r >= (int64_t)VF_ATOM << k, "not smaller than any free block"); bool some = false; for (int j = 0; j <= MPLITE_LOGMAX; j++) if (h->aiFreelist[j] >= 0 && r == (int64_t)VF_ATOM << j) some = true; ENSURES(some || r == 0, "the size of a free block"); REACH("largest");
	}
}
