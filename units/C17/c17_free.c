/*VF
kind: loopinv
src: src/mem/mplite.c
functions: mplite_free mplite_free_unsafe mplite_link mplite_unlink
unwind: 34
cases: 8
casejobs: 3
tcases: 8 16 32 64 256 1024 4096 65536
nobmc: 1
san: nonat
weight: 3
assumes: the pool is in the representation invariant (disjoint aligned power-of-two blocks, exactly the free ones listed, in proper lists), established by c17_init and kept by c17_malloc and c17_free | atom size: the listed powers of two
*/
#define VF_INV_mplite_free_unsafe_1 (vf_inv(handle, iBlock, (int)iLogsize, size))
#define VF_HAV_mplite_free_unsafe_1 iLogsize = vf_hav(handle, &iBlock, &size)
#define VF_DEC_mplite_free_unsafe_1 ((unsigned long long)(MPLITE_LOGMAX - iLogsize))
#define VF_FRS_mplite_free_unsafe_1 vf_frs(handle)
#define VF_FRC_mplite_free_unsafe_1 vf_frc(handle, iBlock, (int)iLogsize)
#include "vf.h"
#include "common_macro.h"
#include "mem/mplite.h"
static _Bool vf_inv(mplite_t *h, int b, int log, unsigned size); static unsigned vf_hav(mplite_t *h, int *b, unsigned *size); static void vf_frs(mplite_t *h); static void vf_frc(mplite_t *h, int b, int log);
#include "src/mem/mplite.c"
#include "pool.inc"
static int vf_b, vf_L, vf_held, vf_acq, vf_rel; static int vf_kb, vf_kl, vf_bud, vf_bp, vf_bn, vf_hd, vf_Q, vf_fl0[MPLITE_LOGMAX + 1]; static bool vf_bf; static uint8_t vf_fc;
/* the merged region [b, b+2^log) is an aligned block inside the pool that holds the freed block */
static _Bool vf_inv(mplite_t *h, int b, int log, unsigned size) { return log >= vf_L && log <= MPLITE_LOGMAX && size == 1u << log && vf_blk(h, b, log) && b <= vf_b && vf_b - b < (int)(1u << log) && h->aCtrl[b] == (MPLITE_CTRL_FREE | log); }
/* the representation invariant at level kl, for the region's buddy and the level's list */
static void vf_level(mplite_t *h)
{
	vf_bud = vf_kb ^ (int)(1u << vf_kl); vf_bf = vf_kl < MPLITE_LOGMAX && vf_bud < h->nBlock && h->aCtrl[vf_bud] == (MPLITE_CTRL_FREE | vf_kl); vf_hd = h->aiFreelist[vf_kl]; vf_bp = vf_bn = -1;
	REQUIRES(vf_hd == -1 || (vf_blk(h, vf_hd, vf_kl) && vf_hd != vf_kb && h->aCtrl[vf_hd] == (MPLITE_CTRL_FREE | vf_kl)));
	if (vf_bf) {   /* the buddy starts a free block of this size: it is inside the pool and listed */
		REQUIRES(vf_blk(h, vf_bud, vf_kl)); vf_bp = vf_lnk(h, vf_bud)->prev; vf_bn = vf_lnk(h, vf_bud)->next;
		REQUIRES((vf_bp == -1) == (vf_hd == vf_bud) && vf_bp >= -1 && vf_bn >= -1);
		REQUIRES(vf_bp == -1 || (vf_blk(h, vf_bp, vf_kl) && vf_bp != vf_kb && vf_bp != vf_bud && vf_lnk(h, vf_bp)->next == vf_bud && vf_hd >= 0));
		REQUIRES(vf_bn == -1 || (vf_blk(h, vf_bn, vf_kl) && vf_bn != vf_kb && vf_bn != vf_bud && vf_bn != vf_bp && vf_bn != vf_hd && vf_lnk(h, vf_bn)->prev == vf_bud));
	}
}
static unsigned vf_hav(mplite_t *h, int *b, unsigned *size)
{
	vf_kl = (int)RANGE((uint64_t)vf_L, MPLITE_LOGMAX); vf_kb = (int)RANGE(0, (uint64_t)h->nBlock - 1); REQUIRES(vf_blk(h, vf_kb, vf_kl)); h->aCtrl[vf_kb] = (uint8_t)(MPLITE_CTRL_FREE | vf_kl);
	vf_level(h); *b = vf_kb; *size = 1u << vf_kl; return (unsigned)vf_kl;
}
static void vf_frs(mplite_t *h) { vf_wsave(); vf_fc = vf_w0; vf_fl0[vf_Q] = h->aiFreelist[vf_Q]; }
/* an iteration that goes on: took exactly the buddy off its list and doubled the region; nothing else changed */
static void vf_frc(mplite_t *h, int b, int log)
{
	ENSURES(vf_bf, "merges only with a free buddy of the same size"); ENSURES(log == vf_kl + 1 && b == (vf_kb < vf_bud ? vf_kb : vf_bud), "the region becomes itself and its buddy");
	ENSURES(h->aiFreelist[vf_kl] == (vf_bp < 0 ? vf_bn : vf_hd), "the buddy left its list"); if (vf_bp >= 0) ENSURES(vf_lnk(h, vf_bp)->next == vf_bn, "its predecessor skips it"); if (vf_bn >= 0) ENSURES(vf_lnk(h, vf_bn)->prev == vf_bp, "its successor skips it");
	ENSURES(vf_Q == vf_kl || h->aiFreelist[vf_Q] == vf_fl0[vf_Q], "other lists unchanged");
	size_t c = (size_t)vf_nb * VF_ATOM; bool ok = vf_w == c + (size_t)vf_bud || vf_w == c + (size_t)vf_kb || (vf_bp >= 0 && vf_w - (size_t)vf_bp * VF_ATOM < 8) || (vf_bn >= 0 && vf_w - (size_t)vf_bn * VF_ATOM < 8);
	if (!ok) ENSURES(vf_mem[vf_w] == vf_w0, "nothing else changed");
}
static int la(void *a) { ENSURES(a == &vf_held && !vf_held, "lock taken once"); vf_held = 1; vf_acq++; return 0; } static int lr(void *a) { ENSURES(a == &vf_held && vf_held, "lock released once"); vf_held = 0; vf_rel++; return 0; }
void vf_harness(void)
{
	mplite_t *h = vf_pool(); vf_held = vf_acq = vf_rel = 0; h->lock.arg = &vf_held; bool lk = BOOL(); h->lock.acquire = lk ? la : NULL; h->lock.release = lk ? lr : NULL;
	vf_L = (int)RANGE(0, MPLITE_LOGMAX); vf_b = (int)RANGE(0, (uint64_t)h->nBlock - 1); REQUIRES(vf_blk(h, vf_b, vf_L) && h->aCtrl[vf_b] == vf_L);
	vf_Q = (int)RANGE(0, MPLITE_LOGMAX); vf_w = (size_t)RANGE(0, vf_len - 1);
	uint64_t size = (uint64_t)VF_ATOM << vf_L; REQUIRES(h->currentCount >= 1 && h->currentOut >= size && h->currentOut <= (uint64_t)h->nBlock * VF_ATOM && (h->currentCount == 1 ? h->currentOut == size : h->currentOut > size));
	mplite_t old = *h; bool nul = U8() % 16 == 0;
	mplite_free(h, nul ? NULL : vf_mem + (size_t)vf_b * VF_ATOM);
	ENSURES(!vf_held && vf_acq == vf_rel, "the lock is released"); ENSURES(h->szAtom == old.szAtom && h->nBlock == old.nBlock && h->zPool == old.zPool && h->aCtrl == old.aCtrl, "the pool stays the same");
	if (nul) { ENSURES(h->currentOut == old.currentOut && h->currentCount == old.currentCount && h->aiFreelist[vf_Q] == old.aiFreelist[vf_Q], "NULL is ignored"); return; }
	/* vf_kb, vf_kl: the region when the loop ended */
	ENSURES(vf_blk(h, vf_kb, vf_kl) && vf_kb <= vf_b && vf_b - vf_kb < (int)(1u << vf_kl), "the freed block is part of the region");
	ENSURES(vf_freeblk(h, vf_kb, vf_kl, 1, vf_hd) && h->aiFreelist[vf_kl] == vf_kb, "the region is a listed free block"); if (vf_hd >= 0) ENSURES(vf_lnk(h, vf_hd)->prev == vf_kb, "and the head of its list");
	ENSURES(!vf_bf, "its buddy is not free: free buddies are always merged");
	ENSURES(vf_Q == vf_kl || h->aiFreelist[vf_Q] == vf_fl0[vf_Q], "other lists unchanged by the final step");
	ENSURES(h->currentOut == old.currentOut - size && h->currentCount == old.currentCount - 1 && h->nAlloc == old.nAlloc && h->maxOut == old.maxOut, "statistics"); REACH("freed"); if (vf_kl > vf_L) REACH("merged");
}
