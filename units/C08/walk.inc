/* Walks over the whole table, deductive: the cut puts the outer loop at an arbitrary bucket I and the inner loop at an
 * arbitrary entry K of its chain (n entries); entries K and K+1 and the first are materialised.  One arbitrary entry W
 * (chain position PW of bucket WB) is watched from beginning to end. */
#include "vf.h"
#include <malloc.h>
#include <errno.h>
#include "data/hashmap.h"
static void *vf_m(size_t n); static void *vf_ca(size_t a, size_t b); static void vf_fr(void *p);
#define malloc vf_m
#define calloc vf_ca
#define free vf_fr
struct Entry; static struct Entry **vf_B; static struct Hashmap *vf_mp;
static size_t vf_I, vf_K, vf_n, vf_WB, vf_PW, vf_bc, vf_size0; static int vf_acq, vf_rel, vf_lockarg;
static struct Entry *vf_at(size_t k);
#define AIDX(p) ((p) == 0 ? vf_n : (p) == vf_at(vf_K) ? vf_K : (p) == vf_at(vf_K + 1) ? vf_K + 1 : (p) == vf_at(0) ? 0 : SIZE_MAX)
/* W has been passed when the walk stands before entry k of bucket i */
#define PAST(i, k) (vf_WB < (i) || (vf_WB == (i) && vf_PW < (k)))
#include "src/data/hashmap.c"
#undef malloc
#undef calloc
#undef free
static Entry vf_E[2], vf_W, vf_F, vf_c[2], vf_wc;
#define WATCHED (vf_WB == vf_I && vf_PW == vf_K ? &vf_E[0] : vf_WB == vf_I && vf_PW == vf_K + 1 ? &vf_E[1] : &vf_W)
static struct Entry *vf_at(size_t k) { return k >= vf_n ? 0 : k == vf_K ? &vf_E[0] : k == vf_K + 1 ? &vf_E[1] : vf_WB == vf_I && vf_PW == k ? &vf_W : &vf_F; }
static int acq(void *a) { ENSURES(a == &vf_lockarg && vf_acq == vf_rel, "lock not taken twice"); vf_acq++; return 0; }
static int rel(void *a) { ENSURES(a == &vf_lockarg && vf_acq == vf_rel + 1, "release of the held lock"); vf_rel++; return 0; }
static void vf_mkchain(void)
{
	for (int j = 0; j < 2; j++) { vf_E[j].key = nondet_ptr(); vf_E[j].value = nondet_ptr(); vf_E[j].hash = (int)nondet_u32(); vf_E[j].next = vf_at(vf_K + 1 + j); vf_c[j] = vf_E[j]; }
}
static hashmap_t *vf_map(void)
{
	hashmap_t *m = vf_mp = vf_alloc(sizeof *m);
	vf_bc = (size_t)1 << RANGE(0, 20); m->bucketCount = vf_bc;
	m->buckets = vf_B = vf_alloc(vf_bc * sizeof(Entry *));
	bool lk = BOOL(); m->lock.arg = &vf_lockarg; m->lock.acquire = lk ? acq : NULL; m->lock.release = lk ? rel : NULL;
	vf_acq = vf_rel = 0;
	vf_I = nondet_u64(); vf_K = nondet_u64(); vf_n = nondet_u64(); vf_WB = nondet_u64(); vf_PW = nondet_u64(); vf_size0 = nondet_u64();
	__CPROVER_assume(vf_I < vf_bc && vf_n <= ((size_t)1 << 40) && vf_K <= vf_n && vf_WB < vf_bc && vf_PW <= ((size_t)1 << 40) && vf_size0 <= ((size_t)1 << 41));
	if (vf_WB == vf_I) __CPROVER_assume(vf_PW < vf_n);
	vf_W.key = nondet_ptr(); vf_W.value = nondet_ptr(); vf_W.hash = (int)nondet_u32(); vf_W.next = nondet_ptr();
	vf_mkchain(); vf_wc = *WATCHED;
	m->buckets[vf_I] = vf_at(0); m->size = vf_size0;
	return m;
}
