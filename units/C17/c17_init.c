/*VF
kind: loopinv
src: src/mem/mplite.c
functions: mplite_init mplite_link mplite_logarithm
unwind: 34
nobmc: 1
san: nonat
weight: 3
cases: 8
casejobs: 3
tcases: 8 16 32 64 256 1024 4096 65536
assumes: atom size: the listed powers of two
*/
#define VF_INV_mplite_init_3 (vf_inv(handle, ii, iOffset))
#define VF_HAV_mplite_init_3 vf_hav(handle, &ii, &iOffset)
#define VF_DEC_mplite_init_3 ((unsigned long long)(ii + 1))
#define VF_FRS_mplite_init_3 vf_frs(handle)
#define VF_FRC_mplite_init_3 vf_frc(handle, ii)
#include "vf.h"
#include "common_macro.h"
#include "mem/mplite.h"
static _Bool vf_inv(mplite_t *h, int ii, int off); static void vf_hav(mplite_t *h, int *ii, int *off); static void vf_frs(mplite_t *h); static void vf_frc(mplite_t *h, int ii);
#include "src/mem/mplite.c"
#include "pool.inc"
static int vf_J, vf_Q; static mplite_t vf_h1;
static int vf_offs(int k) { return k >= 30 ? 0 : (vf_nb >> (k + 1)) << (k + 1); }
static int vf_want(int k) { return vf_nb >> k & 1 ? vf_offs(k) : -1; }
/* levels above ii are done: one block for each binary digit, in order */
static _Bool vf_inv(mplite_t *h, int ii, int off) { return ii >= -1 && ii <= MPLITE_LOGMAX && off == (ii < 0 ? vf_nb : vf_offs(ii)) && h->aiFreelist[vf_Q] == (vf_Q > ii ? vf_want(vf_Q) : -1) && (vf_J <= ii || !(vf_nb >> vf_J & 1) || vf_freeblk(h, vf_offs(vf_J), vf_J, 1, -1)); }
static void vf_hav(mplite_t *h, int *ii, int *off)
{
	*ii = (int)RANGE(0, MPLITE_LOGMAX + 1) - 1; *off = (int)U32(); for (int k = 0; k <= MPLITE_LOGMAX; k++) h->aiFreelist[k] = k > *ii ? vf_want(k) : -1;
	if (vf_J > *ii && (vf_nb >> vf_J & 1)) { int b = vf_offs(vf_J); h->aCtrl[b] = (uint8_t)(MPLITE_CTRL_FREE | vf_J); vf_lnk(h, b)->next = vf_lnk(h, b)->prev = -1; }
}
static void vf_frs(mplite_t *h) { vf_h1 = *h; }
static void vf_frc(mplite_t *h, int ii) { ENSURES(h->szAtom == vf_h1.szAtom && h->nBlock == vf_h1.nBlock && h->zPool == vf_h1.zPool && h->aCtrl == vf_h1.aCtrl && h->currentOut == vf_h1.currentOut && h->currentCount == vf_h1.currentCount && h->lock.arg == vf_h1.lock.arg, "only lists and blocks change"); }
void vf_harness(void)
{
	static mplite_t hh; mplite_t *h = &hh; *h = vf_anyh(); int bs = (int)U32(), ma = (int)U32(); vf_nb = bs > 0 ? bs / (VF_ATOM + 1) : 0; REQUIRES(VF_ATOM == 8 ? ma <= 8 : ma > VF_ATOM / 2 && ma <= VF_ATOM);
	vf_mem = vf_alloc(bs > 0 ? (size_t)bs : 1); bool nl = BOOL(); mplite_lock_t l = { &vf_nb, NULL, NULL }; bool nh = U8() % 16 == 0, nbuf = U8() % 16 == 0; int J = vf_J = (int)RANGE(0, MPLITE_LOGMAX); vf_Q = (int)RANGE(0, MPLITE_LOGMAX);
	int r = mplite_init(nh ? NULL : h, nbuf ? NULL : vf_mem, bs, ma, nl ? NULL : &l);
	if (nh || nbuf || bs <= 0 || ma <= 0 || ma > MPLITE_MAX_ALLOC_SIZE) { ENSURES(r == MPLITE_ERR_INVPAR, "bad arguments are refused"); return; }
	ENSURES(r == MPLITE_OK, "made"); ENSURES(h->szAtom == VF_ATOM && h->nBlock == vf_nb && h->zPool == vf_mem && h->aCtrl == vf_mem + (size_t)vf_nb * VF_ATOM && (size_t)vf_nb * (VF_ATOM + 1) <= (size_t)bs, "blocks and control bytes lie inside the buffer");
	ENSURES(h->szAtom >= ma && (h->szAtom & (h->szAtom - 1)) == 0, "the atom is a power of two not below the smallest allocation");
	ENSURES(h->currentOut == 0 && h->currentCount == 0 && h->nAlloc == 0 && h->maxOut == 0 && h->lock.arg == (nl ? NULL : &vf_nb), "nothing is in use");
	/* the binary digits of the number of atoms: level J has one block iff bit J is set, and it starts after all larger ones */
	int off = vf_offs(J);
	ENSURES(h->aiFreelist[vf_Q] == vf_want(vf_Q), "one listed block per binary digit, no other"); if (vf_nb >> J & 1) { ENSURES(vf_freeblk(h, off, J, 1, -1), "the atoms are covered by free blocks, the largest first"); REACH("block"); }
}
