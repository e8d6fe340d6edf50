/*VF
kind: full
src: src/data/hashmap.c
functions: hashmap_create
unwind: 66
unwindset: hashmap_create.0:66
bunwind: 66
assumes: calloc gives a zeroed block or NULL
*/
#include "vf.h"
#include <malloc.h>
#include <errno.h>
#include "data/hashmap.h"
static int live; static _Bool oom1, oom2; static uint64_t ca, cb; static void *cp;
static void *vf_m(size_t n) { if (oom1) return NULL; live++; return vf_alloc(n); }
static void *vf_ca(size_t a, size_t b) { if (oom2) return NULL; ca = a; cb = b; live++; cp = vf_alloc(VF_IS_NATIVE ? 8 : 8); return cp; }
static void vf_fr(void *p) { live--; (void)p; }
#define malloc vf_m
#define calloc vf_ca
#define free vf_fr
#include "src/data/hashmap.c"
#undef malloc
#undef calloc
#undef free
static int h(const void *k) { return 0; }
static bool e(const void *a, const void *b) { return a == b; }
static void f1(void *k) { } static void f2(void *k) { }
static int l(void *a) { return 0; }
void vf_harness(void)
{
	live = 0; oom1 = BOOL(); oom2 = BOOL();
	hashmap_lock_t lk = { &live, l, l }; bool hl = BOOL(); uint64_t cap = RANGE(0, (uint64_t)1 << 58);
	hashmap_t *m = hashmap_create(cap, h, f1, f2, e, hl ? &lk : NULL);
	ENSURES((m == NULL) == (oom1 || oom2), "fails only for lack of memory");
	ENSURES(live == (m ? 2 : 0), "nothing leaks on failure");
	if (m) {
		ENSURES(m->bucketCount >= 1 && (m->bucketCount & (m->bucketCount - 1)) == 0 && ca * cb == m->bucketCount * sizeof(Entry *) && m->buckets == cp, "a power of two of empty buckets");
		ENSURES(m->size == 0 && hashmap_size(m) == 0 && m->fn_hash == h && m->fn_key_equality == e && m->fn_key_free == f1 && m->fn_value_free == f2, "empty map with the given functions");
		ENSURES(hl ? m->lock.arg == &live && m->lock.acquire == l && m->lock.release == l : !m->lock.acquire && !m->lock.release, "the lock given or none");
		REACH("made");
	} else REACH("not made");
}
