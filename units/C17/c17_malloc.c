/*VF
kind: loopinv
src: src/mem/mplite.c
functions: mplite_malloc mplite_malloc_unsafe mplite_link mplite_unlink
unwind: 34
cases: 8
casejobs: 3
tcases: 8 16 32 64 256 1024 4096 65536
nobmc: 1
san: nonat
weight: 3
assumes: the pool is in the representation invariant (disjoint aligned power-of-two blocks, free ones listed), established by c17_init and kept by c17_malloc and c17_free | atom size: the listed powers of two
*/
#define VF_INV_mplite_malloc_unsafe_3 (vf_inv(handle, i, iBin, iLogsize))
#define VF_HAV_mplite_malloc_unsafe_3 vf_hav(handle, &iBin, iLogsize)
#define VF_DEC_mplite_malloc_unsafe_3 ((unsigned long long)iBin)
#define VF_FRS_mplite_malloc_unsafe_3 vf_frs()
#define VF_FRC_mplite_malloc_unsafe_3 vf_frc()
#include "vf.h"
#include "mem/mplite.h"
static _Bool vf_inv(mplite_t *h, int i, int bin, int log); static void vf_hav(mplite_t *h, int *bin, int log); static void vf_frs(void); static void vf_frc(void);
#include "src/mem/mplite.c"
#include "pool.inc"
static int vf_head, vf_next, vf_P, vf_J, vf_Q, vf_fl0[MPLITE_LOGMAX + 1], vf_held, vf_acq, vf_rel;
/* after the splits down to bin: piece J (if already split off) is a listed free block, list Q is as expected */
static _Bool vf_inv(mplite_t *h, int i, int bin, int log)
{
	return i == vf_head && bin >= log && bin <= vf_P && (vf_J < bin || vf_J >= vf_P || vf_freeblk(h, vf_head + (1 << vf_J), vf_J, 1, -1))
	 && h->aiFreelist[vf_Q] == (vf_Q >= bin && vf_Q < vf_P ? vf_head + (1 << vf_Q) : vf_Q == vf_P ? vf_next : vf_fl0[vf_Q]) && (vf_next < 0 || vf_lnk(h, vf_next)->prev == -1);
}
static void vf_hav(mplite_t *h, int *bin, int log)
{
	*bin = (int)RANGE((uint64_t)log, (uint64_t)vf_P); for (int k = 0; k <= MPLITE_LOGMAX; k++) h->aiFreelist[k] = k >= *bin && k < vf_P ? vf_head + (1 << k) : k == vf_P ? vf_next : vf_fl0[k];
	if (vf_J >= *bin && vf_J < vf_P) { int b = vf_head + (1 << vf_J); h->aCtrl[b] = (uint8_t)(MPLITE_CTRL_FREE | vf_J); vf_lnk(h, b)->next = -1; vf_lnk(h, b)->prev = -1; }
}
static void vf_frs(void) { vf_wsave(); } static void vf_frc(void) { vf_wcheck(); }
static int la(void *a) { ENSURES(a == &vf_held && !vf_held, "lock taken once"); vf_held = 1; vf_acq++; return 0; } static int lr(void *a) { ENSURES(a == &vf_held && vf_held, "lock released once"); vf_held = 0; vf_rel++; return 0; }
void vf_harness(void)
{
	mplite_t *h = vf_pool(); vf_held = vf_acq = vf_rel = 0; h->lock.arg = &vf_held; bool lk = BOOL(); h->lock.acquire = lk ? la : NULL; h->lock.release = lk ? lr : NULL;
	int n = (int)U32(), log = 0; while (log < 31 && ((uint64_t)VF_ATOM << log) < (uint64_t)(n > 0 ? n : 1)) log++;
	for (int k = 0; k <= MPLITE_LOGMAX; k++) { int f = h->aiFreelist[k] = (int)U32(); REQUIRES(f >= -1); vf_fl0[k] = f; }
	int P = log; while (P <= MPLITE_LOGMAX && vf_fl0[P] < 0) P++;
	bool can = n > 0 && n <= MPLITE_MAX_ALLOC_SIZE && P <= MPLITE_LOGMAX; vf_P = can ? P : 0; vf_J = (int)RANGE(0, MPLITE_LOGMAX); vf_Q = (int)RANGE(0, MPLITE_LOGMAX); vf_head = vf_next = -1;
	if (can) {
		vf_head = vf_fl0[P]; vf_next = (int)U32(); REQUIRES(vf_next == -1 || (vf_blk(h, vf_next, P) && vf_next != vf_head));
		REQUIRES(vf_freeblk(h, vf_head, P, 1, vf_next)); if (vf_next >= 0) REQUIRES(vf_freeblk(h, vf_next, P, 0, 0) && vf_lnk(h, vf_next)->prev == vf_head);
		REQUIRES(h->currentOut <= (uint64_t)h->nBlock * VF_ATOM - ((uint64_t)VF_ATOM << P) && h->currentCount < 0x7fffffffu);   /* the live blocks do not overlap the free one */
	}
	vf_w = (size_t)RANGE(0, vf_len - 1); if (can) REQUIRES(!vf_inlinks(vf_w, vf_head, P) && !vf_inctrl(vf_w, vf_head, P) && (vf_next < 0 || vf_w - (size_t)vf_next * VF_ATOM >= 8)); vf_wsave(); uint8_t w0 = vf_mem[vf_w];
	mplite_t old = *h;
	char *p = mplite_malloc(h, n);
	ENSURES(!vf_held && vf_acq == vf_rel, "the lock is released"); ENSURES(vf_mem[vf_w] == w0, "memory outside the chosen block is untouched: other blocks keep their content and state");
	ENSURES(h->szAtom == old.szAtom && h->nBlock == old.nBlock && h->zPool == old.zPool && h->aCtrl == old.aCtrl, "the pool stays the same");
	if (!can) { ENSURES(p == NULL, "nothing fits"); ENSURES(h->aiFreelist[vf_Q] == vf_fl0[vf_Q] && h->currentOut == old.currentOut && h->currentCount == old.currentCount && h->nAlloc == old.nAlloc, "a refused allocation changes nothing"); REACH("refused"); return; }
	ENSURES(p != NULL, "a free block that is large enough is found"); size_t off = (size_t)(p - (char *)h->zPool), size = (size_t)VF_ATOM << log;
	ENSURES(off == (size_t)vf_head * VF_ATOM && size >= (size_t)n && off + size <= (size_t)h->nBlock * VF_ATOM, "the block is inside the pool and large enough");
	ENSURES(h->aCtrl[vf_head] == log, "it is marked as in use, with its size"); ENSURES((vf_head & ((1 << log) - 1)) == 0, "aligned to its size");
	if (vf_J >= log && vf_J < P) { ENSURES(vf_freeblk(h, vf_head + (1 << vf_J), vf_J, 1, -1) && h->aiFreelist[vf_J] == vf_head + (1 << vf_J), "each half split off is a listed free block"); REACH("split"); }
	ENSURES(h->aiFreelist[vf_Q] == (vf_Q >= log && vf_Q < P ? vf_head + (1 << vf_Q) : vf_Q == P ? vf_next : vf_fl0[vf_Q]), "the other lists are unchanged, the block left its list"); if (vf_next >= 0) ENSURES(vf_lnk(h, vf_next)->prev == -1, "its successor becomes the head");
	ENSURES(h->currentOut == old.currentOut + size && h->currentCount == old.currentCount + 1 && h->nAlloc == old.nAlloc + 1, "statistics"); ENSURES(h->maxOut >= h->currentOut && h->maxCount >= h->currentCount && h->maxRequest >= (uint32_t)n, "peaks");
	REACH("allocated");
}
