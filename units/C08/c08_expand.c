/*VF
kind: loopinv
src: src/data/hashmap.c
functions: expandIfNecessary calculateIndex
unwind: 26
nobmc: 1
san: nonat
cbmcflags: --no-signed-overflow-check --no-undefined-shift-check
assumes: calloc gives a zeroed block or NULL | stored hashes are those of the stored keys (established by hashmap_put)
*/
/* Every entry W that has been moved is the head of the new bucket of its hash, or is linked from an entry moved later
 * into the same bucket (vf_pred); its own link leads to an entry moved earlier into the same bucket or ends the chain.
 * By induction on the order of moves W is therefore reachable from its new bucket. */
#define VF_INV_expandIfNecessary_1 (i <= vf_bc && map->bucketCount == vf_bc && map->buckets == vf_B && newBuckets == vf_NB && newBucketCount == vf_bc * 2 && vf_linked(PAST(i, 0)))
#define VF_HAV_expandIfNecessary_1 i = BOOL() ? vf_I : vf_bc, newBuckets = vf_NB, vf_hav(PAST(i, 0))
#define VF_DEC_expandIfNecessary_1 (vf_bc - i)
#define VF_FRS_expandIfNecessary_1 VF_FRAME_SAVE(0, vf_mp, sizeof *vf_mp)
#define VF_FRC_expandIfNecessary_1 VF_FRAME_CHECK(0)
#define VF_INV_expandIfNecessary_2 (i == vf_I && AIDX(entry) <= vf_n && vf_linked(PAST(i, AIDX(entry))) && vf_same(AIDX(entry)))
#define VF_HAV_expandIfNecessary_2 entry = vf_at(vf_K), newBuckets = vf_NB, vf_hav(PAST(i, vf_K))
#define VF_DEC_expandIfNecessary_2 (vf_n - AIDX(entry))
#define VF_FRS_expandIfNecessary_2 VF_FRAME_SAVE(1, vf_mp, sizeof *vf_mp); VF_FRAME_SAVE(2, vf_B, vf_bc * sizeof *vf_B)
#define VF_FRC_expandIfNecessary_2 VF_FRAME_CHECK(1); VF_FRAME_CHECK(2)
struct Entry; static struct Entry **vf_NB; static int vf_bfree; static _Bool vf_oom;
static _Bool vf_same(unsigned long k); static _Bool vf_linked(_Bool past); static void vf_hav(_Bool past);
#include "walk.inc"
static Entry vf_P, vf_M; static Entry *vf_pred; static size_t vf_j, vf_x; static Entry *vf_wnext; static _Bool vf_seenpast;
static _Bool vf_same(size_t k)
{
	if (k == vf_K + 1 && k < vf_n) return vf_E[1].next == vf_c[1].next && vf_E[1].key == vf_c[1].key && vf_E[1].value == vf_c[1].value && vf_E[1].hash == vf_c[1].hash;
	return 1;
}
#define IDXOF(e) ((size_t)(e)->hash & (vf_bc * 2 - 1))
/* p is the head of new bucket x: empty, or an entry that has been moved there */
static _Bool headok(Entry *p, size_t x, _Bool past)
{
	if (p == 0 || p == &vf_M) return 1;                 /* M: some moved entry of that bucket */
	if (p == WATCHED) return past && x == vf_j;
	if (p == vf_pred) return x == vf_j;
	return p == &vf_E[0] && vf_I < vf_bc && IDXOF(p) == x;    /* the entry moved in this step */
}
static _Bool vf_linked(_Bool past)
{
	Entry *w = WATCHED;
	if (!headok(vf_NB[vf_x], vf_x, past) || !headok(vf_NB[vf_j], vf_j, past)) return 0;
	if (w->key != vf_wc.key || w->value != vf_wc.value || w->hash != vf_wc.hash) return 0;
	if (!past) return vf_pred == 0 && (vf_NB[vf_j] != w);
	if (!vf_pred && vf_NB[vf_j] != w) vf_pred = vf_NB[vf_j];            /* the entry that took its place */
	if (vf_pred) { if (vf_pred == &vf_M || vf_pred == w) return 0; return vf_pred->next == w && IDXOF(vf_pred) == vf_j && (w->next == 0 || w->next == &vf_M); }
	return vf_NB[vf_j] == w && (w->next == 0 || w->next == &vf_M);
}
static void vf_hav(_Bool past)
{
	/* entries of this chain that are still ahead are untouched, everything else that moved may have changed its link */
	vf_mkchain(); Entry *w = WATCHED;
	w->key = vf_wc.key; w->value = vf_wc.value; w->hash = vf_wc.hash;
	vf_c[0] = vf_E[0]; vf_c[1] = vf_E[1];
	__CPROVER_havoc_object(vf_NB);
	vf_pred = 0;
	if (past) {
		w->next = BOOL() ? 0 : &vf_M;
		if (BOOL()) vf_NB[vf_j] = w; else { vf_pred = &vf_P; vf_P.next = w; vf_P.hash = (int)nondet_u32(); __CPROVER_assume(IDXOF(&vf_P) == vf_j); vf_NB[vf_j] = BOOL() ? &vf_P : &vf_M; }
	} else vf_NB[vf_j] = BOOL() ? 0 : &vf_M;
	if (vf_x != vf_j) vf_NB[vf_x] = BOOL() ? 0 : &vf_M;
	/* the bucket the next entry goes to */
	size_t e = IDXOF(&vf_E[0]);
	if (e != vf_j && e != vf_x) vf_NB[e] = BOOL() ? 0 : &vf_M;
}
static void *vf_m(size_t n) { ENSURES(0, "no entry is made"); return 0; }
static void *vf_ca(size_t a, size_t b)
{
	ENSURES(a == vf_bc * 2 && b == sizeof(Entry *), "the new table has twice the buckets");
	if (vf_oom) return 0;
	vf_NB = vf_alloc(a * b); vf_NB[vf_j] = 0; vf_NB[vf_x] = 0; size_t e = IDXOF(&vf_E[0]); vf_NB[e] = 0;   /* zeroed, instantiated where it is used */
	return vf_NB;
}
static void vf_fr(void *p) { ENSURES(p == vf_B, "only the old table is released"); vf_bfree++; }
void vf_harness(void)
{
	hashmap_t *m = vf_map(); vf_oom = BOOL(); vf_pred = 0; vf_bfree = 0; vf_NB = 0;
	vf_j = IDXOF(&vf_wc); vf_x = nondet_u64(); __CPROVER_assume(vf_x < vf_bc * 2);
	expandIfNecessary(m);
	ENSURES(m->size == vf_size0, "growth keeps the size");
	ENSURES(vf_acq == 0 && vf_rel == 0, "the lock is the caller's business");
	if (m->buckets == vf_B) { ENSURES(m->bucketCount == vf_bc && vf_bfree == 0 && vf_B[vf_I] == vf_at(0), "without growth nothing changes"); REACH("kept"); }
	else {
		ENSURES(m->buckets == vf_NB && m->bucketCount == vf_bc * 2 && vf_bfree == 1, "the new table replaces the old one, which is released");
		ENSURES(vf_linked(1), "every entry is linked into the chain of its hash's new bucket");
		REACH("grown");
	}
}
