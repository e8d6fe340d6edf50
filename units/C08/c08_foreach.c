/*VF
kind: loopinv
src: src/data/hashmap.c
functions: hashmap_foreach
unwind: 26
nobmc: 1
san: nonat
cbmcflags: --no-signed-overflow-check --no-undefined-shift-check
assumes: the callback does not modify the map except releasing the entry it is given
*/
#define VF_INV_hashmap_foreach_1 (i <= vf_bc && keep_going == !vf_stopped && (vf_stopped || vf_visw == (size_t)PAST(i, 0)))
#define VF_HAV_hashmap_foreach_1 i = BOOL() ? vf_I : vf_bc, vf_stopped = BOOL(), vf_visw = vf_stopped ? vf_visw : PAST(i, 0), vf_mkchain()
#define VF_DEC_hashmap_foreach_1 (vf_bc - i)
#define VF_FRS_hashmap_foreach_1 VF_FRAME_SAVE(0, vf_mp, sizeof *vf_mp); VF_FRAME_SAVE(1, vf_B, vf_bc * sizeof *vf_B)
#define VF_FRC_hashmap_foreach_1 VF_FRAME_CHECK(0); VF_FRAME_CHECK(1)
#define VF_INV_hashmap_foreach_2 (i == vf_I && AIDX(entry) <= vf_n && !vf_stopped && keep_going && vf_visw == (size_t)PAST(i, AIDX(entry)) && vf_same(AIDX(entry)))
#define VF_HAV_hashmap_foreach_2 entry = vf_at(vf_K), vf_visw = PAST(i, vf_K), vf_stopped = 0, vf_mkchain(), keep_going = 1
#define VF_DEC_hashmap_foreach_2 (vf_n - AIDX(entry))
#define VF_FRS_hashmap_foreach_2 VF_FRAME_SAVE(2, vf_mp, sizeof *vf_mp); VF_FRAME_SAVE(3, vf_B, vf_bc * sizeof *vf_B)
#define VF_FRC_hashmap_foreach_2 VF_FRAME_CHECK(2); VF_FRAME_CHECK(3)
static _Bool vf_stopped; static unsigned long vf_visw;
static _Bool vf_same(unsigned long k);
#include "walk.inc"
/* entries still ahead of the walk are as they were */
static _Bool vf_same(size_t k)
{
	if (k == vf_K + 1 && k < vf_n) return vf_E[1].next == vf_c[1].next && vf_E[1].key == vf_c[1].key && vf_E[1].value == vf_c[1].value;
	return 1;
}
static int ctx;
static bool visit(void *k, void *v, void *c)
{
	ENSURES(c == &ctx, "the context is passed on");
	ENSURES(!vf_stopped, "no visit after the callback asked to stop");
	ENSURES(vf_K < vf_n && k == vf_E[0].key && v == vf_E[0].value, "the callback gets the key and value of the next entry");
	if (WATCHED == &vf_E[0]) vf_visw++;
	vf_E[0].next = nondet_ptr();                       /* the callback may release the entry */
	if (BOOL()) { vf_stopped = 1; return false; }
	return true;
}
static void *vf_m(size_t n) { ENSURES(0, "no allocation"); return 0; }
static void *vf_ca(size_t a, size_t b) { ENSURES(0, "no allocation"); return 0; }
static void vf_fr(void *p) { ENSURES(0, "no release"); }
void vf_harness(void)
{
	hashmap_t *m = vf_map(); vf_stopped = 0; vf_visw = 0; size_t b = nondet_u64(); __CPROVER_assume(b < vf_bc); Entry *bv = m->buckets[b];
	hashmap_foreach(m, visit, &ctx);
	if (!vf_stopped) ENSURES(vf_visw == 1, "every entry is visited exactly once");
	ENSURES(m->size == vf_size0 && m->bucketCount == vf_bc && m->buckets == vf_B && vf_B[b] == bv, "the map is unchanged");
	ENSURES(vf_acq == vf_rel, "lock and unlock are matched");
	if (vf_stopped) REACH("stopped"); else REACH("all");
}
