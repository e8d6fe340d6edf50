/*VF
kind: loopinv
src: src/data/hashmap.c
functions: hashmap_clear hashmap_clear_unsafe hashmap_free
unwind: 26
nobmc: 1
san: nonat
cbmcflags: --no-signed-overflow-check --no-undefined-shift-check
assumes: free makes the content of the block arbitrary | the map's size field is the sum of its chain lengths
*/
#define VF_INV_hashmap_clear_unsafe_1 (i <= vf_bc && vf_freed == vf_pre(i) && map->size == vf_size0 - vf_freed && vf_w(PAST(i, 0)) && (vf_B[vf_b] == 0 || vf_b >= i) && (i < vf_bc || vf_freed == vf_size0) && (i != vf_I || vf_B[vf_I] == vf_at(0)) && !vf_bfree && !vf_mfree)
#define VF_HAV_hashmap_clear_unsafe_1 i = BOOL() ? vf_I : vf_bc, vf_hav(i, 0)
#define VF_DEC_hashmap_clear_unsafe_1 (vf_bc - i)
#define VF_INV_hashmap_clear_unsafe_2 (i == vf_I && AIDX(entry) <= vf_n && vf_freed == vf_SI + AIDX(entry) && map->size == vf_size0 - vf_freed && vf_w(PAST(i, AIDX(entry))) && (vf_B[vf_b] == 0 || vf_b >= i) && vf_same(AIDX(entry)) && !vf_bfree && !vf_mfree)
#define VF_HAV_hashmap_clear_unsafe_2 entry = vf_at(vf_K), vf_hav(vf_I, vf_K)
#define VF_DEC_hashmap_clear_unsafe_2 (vf_n - AIDX(entry))
static unsigned long vf_freed, vf_SI, vf_b; static int vf_kw, vf_vw, vf_ew, vf_bfree, vf_mfree; static _Bool vf_kf, vf_vf, vf_cur_k, vf_cur_v;
static _Bool vf_same(unsigned long k); static unsigned long vf_pre(unsigned long i); static _Bool vf_w(_Bool past); static void vf_hav(unsigned long i, unsigned long k);
#include "walk.inc"
static _Bool vf_same(size_t k)
{
	if (k == vf_K && k < vf_n) return vf_E[0].next == vf_c[0].next && vf_E[0].key == vf_c[0].key && vf_E[0].value == vf_c[0].value;
	if (k == vf_K + 1 && k < vf_n) return vf_E[1].next == vf_c[1].next && vf_E[1].key == vf_c[1].key && vf_E[1].value == vf_c[1].value;
	return 1;
}
/* number of entries in the buckets before i */
static size_t vf_pre(size_t i) { return i == 0 ? 0 : i == vf_I ? vf_SI : i == vf_I + 1 ? vf_SI + vf_n : vf_size0; }
/* W is released once when it has been passed, not at all before */
static _Bool vf_w(_Bool past) { return vf_ew == past && vf_kw == (past && vf_kf && vf_wc.key) && vf_vw == (past && vf_vf && vf_wc.value); }
static void vf_hav(size_t i, size_t k)
{
	vf_freed = k ? vf_SI + k : vf_pre(i); vf_mp->size = vf_size0 - vf_freed;
	_Bool p = PAST(i, k); vf_ew = p; vf_kw = p && vf_kf && vf_wc.key; vf_vw = p && vf_vf && vf_wc.value;
	Entry *h = vf_B[vf_b]; if (vf_b < i) vf_B[vf_b] = 0;   /* buckets before i are empty by now */
}
static void keyfree(void *k)
{
	ENSURES(vf_kf && vf_K < vf_n && k && k == vf_c[0].key, "releases the keys of stored entries only");
	if (WATCHED == &vf_E[0]) vf_kw++;
}
static void valfree(void *v)
{
	ENSURES(vf_vf && vf_K < vf_n && v && v == vf_c[0].value, "releases the values of stored entries only");
	if (WATCHED == &vf_E[0]) vf_vw++;
}
static void *vf_m(size_t n) { ENSURES(0, "no allocation"); return 0; }
static void *vf_ca(size_t a, size_t b) { ENSURES(0, "no allocation"); return 0; }
static void vf_fr(void *p)
{
	if (p == vf_B) { vf_bfree++; return; }
	if (p == vf_mp) { vf_mfree++; return; }
	ENSURES(vf_K < vf_n && p == &vf_E[0] && !vf_bfree && !vf_mfree, "frees entries of the table only");
	if (WATCHED == &vf_E[0]) vf_ew++;
	vf_freed++;
	vf_E[0].next = nondet_ptr(); vf_E[0].key = nondet_ptr(); vf_E[0].value = nondet_ptr();
}
void vf_harness(void)
{
	hashmap_t *m = vf_map();
	vf_kf = BOOL(); vf_vf = BOOL(); m->fn_key_free = vf_kf ? keyfree : NULL; m->fn_value_free = vf_vf ? valfree : NULL;
	vf_b = nondet_u64(); vf_SI = nondet_u64(); __CPROVER_assume(vf_b < vf_bc && vf_SI <= vf_size0 && vf_n <= vf_size0 - vf_SI);
	if (vf_I == 0) __CPROVER_assume(vf_SI == 0);
	if (vf_I == vf_bc - 1) __CPROVER_assume(vf_SI + vf_n == vf_size0);
	vf_freed = 0; vf_kw = vf_vw = vf_ew = vf_bfree = vf_mfree = 0;
	bool all = BOOL(), lk = m->lock.acquire != NULL;
	if (all) hashmap_free(m); else hashmap_clear(m);
	ENSURES(vf_freed == vf_size0 && vf_ew == 1, "every entry is freed exactly once");
	ENSURES(vf_kw == (vf_kf && vf_wc.key ? 1 : 0) && vf_vw == (vf_vf && vf_wc.value ? 1 : 0), "every key and value is released exactly once");
	if (!all) { ENSURES(m->size == 0 && hashmap_size(m) == 0 && m->bucketCount == vf_bc && m->buckets == vf_B && vf_B[vf_b] == 0 && !vf_bfree && !vf_mfree, "clear leaves an empty table"); REACH("clear"); }
	else { ENSURES(vf_bfree == 1 && vf_mfree == 1, "free releases the table and the map once"); REACH("free"); }
	ENSURES(vf_acq == vf_rel && vf_acq == (lk ? 1 : 0), "lock and unlock are matched");
}
