/* arbitrary map: 2^b buckets; the chain of the bucket the key belongs to has n entries; one of them (index f) or none
 * (f == n) has a key equal to the one asked for.  Equal keys have equal hashes; nothing else is assumed of the hash
 * function, so any number of unequal keys may share the hash.
 * Deductive run: the chain has any length.  The loop cut puts the loop at an arbitrary link K (the link that leads to
 * entry K); the entries K-1, K, K+1, the first and entry K+2 are materialised, no pointer to any other entry exists,
 * so no other entry can be read or written. */
#include "vf.h"
#include <malloc.h>
#include <errno.h>
#include "data/hashmap.h"
static _Bool vf_oom; static int vf_news, vf_nfree, vf_kcb, vf_vcb, vf_acq, vf_rel; static void *vf_kp, *vf_vp, *vf_newp; static size_t vf_n, vf_f, vf_idx; static void *vf_key, *vf_fkey; static int vf_H, vf_h, vf_lockarg;
static void *vf_m(size_t n); static void *vf_ca(size_t a, size_t b); static void vf_fr(void *p);
#define malloc vf_m
#define calloc vf_ca
#define free vf_fr
static struct Entry *vf_A; static struct Entry **vf_B;
#ifdef VF_UNB
static size_t vf_K; static void vf_frs(void), vf_frc(void);
#define AIDX(p) ((p) == 0 ? vf_n : (p) == vf_at(vf_K) ? vf_K : (p) == vf_at(vf_K + 1) ? vf_K + 1 : (p) == vf_at(0) ? 0 : SIZE_MAX)
#define LIDX(p) ((p) == vf_B + vf_idx ? 0 : vf_K > 0 && (p) == vf_link(vf_K - 1) ? vf_K : (p) == vf_link(vf_K) ? vf_K + 1 : SIZE_MAX)
static struct Entry *vf_at(size_t k); static struct Entry **vf_link(size_t k);
#else
#define vf_at(k) ((k) < vf_n ? vf_A + (k) : NULL)
#endif
#include "src/data/hashmap.c"
#undef malloc
#undef calloc
#undef free
#ifdef VF_UNB
static Entry vf_N[5]; static hashmap_t *vf_mp;
#define FRS() (({ VF_FRAME_SAVE(0, vf_N, sizeof vf_N); VF_FRAME_SAVE(1, vf_mp, sizeof *vf_mp); VF_FRAME_SAVE(2, vf_B, vf_mp->bucketCount * sizeof *vf_B); }))
#define FRC() (({ VF_FRAME_CHECK(0); VF_FRAME_CHECK(1); VF_FRAME_CHECK(2); __CPROVER_assert(vf_kcb == 0 && vf_vcb == 0 && vf_nfree == 0 && vf_news == 0, "FRAME no callback or allocation while searching"); }))
static void vf_frs(void) { FRS(); }
static void vf_frc(void) { FRC(); }
static struct Entry *vf_at(size_t k) { return k >= vf_n ? 0 : k == vf_K ? &vf_N[1] : k == vf_K + 1 ? &vf_N[2] : k == vf_K + 2 ? &vf_N[4] : k + 1 == vf_K ? &vf_N[0] : &vf_N[3]; }
static struct Entry **vf_link(size_t k) { return k == vf_K ? &vf_N[1].next : &vf_N[0].next; }
static void vf_mk(Entry *e, size_t k)
{
	e->key = nondet_ptr(); e->value = nondet_ptr(); e->hash = (int)nondet_u32(); e->next = vf_at(k + 1);
	if (k == vf_f) { e->key = vf_fkey; e->hash = vf_h; }
	else __CPROVER_assume(e->key != vf_key && (vf_f >= vf_n || e->key != vf_fkey));
}
#endif
static void *vf_m(size_t n) { if (vf_oom) return NULL; vf_news++; return vf_newp = vf_alloc(n); }
static void *vf_ca(size_t a, size_t b) { return NULL; }   /* growth is not possible in these units */
static void vf_fr(void *p)
{
	vf_nfree++;
	ENSURES(vf_f < vf_n && p == vf_at(vf_f), "frees only the removed entry");
#ifdef VF_UNB
	__CPROVER_assume(p == &vf_N[1]);
	Entry *q = &vf_N[1]; q->next = nondet_ptr(); q->key = nondet_ptr(); q->value = nondet_ptr();   /* content is gone */
#else
	Entry *q = p; q->next = (void *)1; q->key = q->value = (void *)1;
#endif
}
static int fnhash(const void *k) { ENSURES(k == vf_key, "hashes the key"); (void)k; return vf_H; }
static void keyfree(void *k) { vf_kcb++; vf_kp = k; }
static void valfree(void *v) { vf_vcb++; vf_vp = v; }
/* equality of the caller's keys: the class of the asked key holds vf_key and, when stored, the key of entry f */
static bool eqk(const void *a, const void *b)
{
	_Bool ia = a == vf_key || (vf_f < vf_n && a == vf_fkey), ib = b == vf_key || (vf_f < vf_n && b == vf_fkey);
	ENSURES(ia || ib, "compares with the key asked for");
	return ia && ib;
}
static int acq(void *a) { ENSURES(a == &vf_lockarg && vf_acq == vf_rel, "lock not taken twice"); vf_acq++; return 0; }
static int rel(void *a) { ENSURES(a == &vf_lockarg && vf_acq == vf_rel + 1, "release of the held lock"); vf_rel++; return 0; }
static hashmap_t *vf_map(void)
{
	hashmap_t *m = vf_alloc(sizeof *m);
#ifdef VF_UNB
	vf_mp = m;
#endif
	vf_n = SZ(0, (size_t)1 << 40); unsigned b = (unsigned)RANGE(0, VF_IS_NATIVE ? 4 : 20);
	m->bucketCount = (size_t)1 << b;
	m->fn_hash = fnhash; m->fn_key_free = BOOL() ? keyfree : NULL; m->fn_value_free = BOOL() ? valfree : NULL; m->fn_key_equality = eqk;
	bool lk = BOOL(); m->lock.arg = &vf_lockarg; m->lock.acquire = lk ? acq : NULL; m->lock.release = lk ? rel : NULL;
	m->size = RANGE(0, (size_t)1 << 41); if (m->size < vf_n) m->size = vf_n;
	vf_acq = vf_rel = vf_news = vf_nfree = vf_kcb = vf_vcb = 0; vf_kp = vf_vp = vf_newp = 0; vf_oom = BOOL();
	vf_f = RANGE(0, vf_n);
	vf_key = (void *)(uintptr_t)RANGE(0, 6); vf_fkey = (void *)(uintptr_t)RANGE(0, 6);
	vf_H = I32(); int h = vf_h = hashKey(m, vf_key);
	vf_idx = calculateIndex(m->bucketCount, h);
	m->buckets = vf_B = vf_alloc(m->bucketCount * sizeof(Entry *));
#ifdef VF_UNB
	vf_K = nondet_u64(); __CPROVER_assume(vf_K <= vf_n);
	if (vf_K > 0) vf_mk(&vf_N[0], vf_K - 1);
	vf_mk(&vf_N[1], vf_K); vf_mk(&vf_N[2], vf_K + 1); vf_mk(&vf_N[4], vf_K + 2);
	if (vf_K > 1) vf_mk(&vf_N[3], 0);
	m->buckets[vf_idx] = vf_at(0);
#else
	vf_A = vf_alloc((vf_n + 1) * sizeof *vf_A);
	m->buckets[vf_idx] = vf_n ? vf_A : NULL;
	for (size_t i = 0; i < m->bucketCount; i++) if (i != vf_idx) m->buckets[i] = NULL;
	for (size_t i = 0; i < vf_n; i++) {
		vf_A[i].next = i + 1 < vf_n ? vf_A + i + 1 : NULL; vf_A[i].value = (void *)(uintptr_t)(U8() % 4); vf_A[i].hash = BOOL() ? h : I32();
		vf_A[i].key = (void *)(uintptr_t)(100 + i);
		if (i == vf_f) { vf_A[i].key = vf_fkey; vf_A[i].hash = h; }
	}
#endif
	return m;
}
