/*VF
kind: bounded
src: src/mem/allocation_tracker.c
functions: allocation_tracker_expect_no_allocations allocation_entry_freed_checker allocation_memory_corruption_checker allocation_tracker_notify_alloc allocation_tracker_reset allocation_tracker_uninit
unwind: 10
bunwind: 10
san: nonat
btimeout: 330
bounddoc: at most 2 live blocks, each below 1 MB
assumes: hashmap_* by the map contract (discharged in C08)
*/
#include "al.inc"
#include "mem/allocation_tracker.h"
#include "mem/strings.h"
#include "data/hashmap.h"
#include "data/hash_functions.h"
#include "thread/posix_thread.h"
static void *t_calloc(size_t a, size_t b), t_free(void *p), *c_memcpy(void *d, const void *s, size_t n);
#define memcpy c_memcpy
#define abort vf_abort
#define calloc t_calloc
#define free t_free
#include "src/mem/allocation_tracker.c"
#undef calloc
#undef free
#undef memcpy
#undef abort
static int expect_abort, nclear, nfree, reported; static void vf_abort(void) { ENSURES(expect_abort, "no false alarm: intact live blocks are accepted"); REQUIRES(0); }
static void *c_memcpy(void *d, const void *s, size_t n) { if (n == 8) for (int i = 0; i < 8; i++) ((char *)d)[i] = ((const char *)s)[i]; else ENSURES(0, "STUB memcpy"); return d; }
size_t strlcpy(char *d, const char *s, size_t n) { if (n) d[n - 1] = 0; return n; }
static allocation_t rec_[2]; static int nrec; static void *t_calloc(size_t a, size_t b) { ENSURES(nrec < 2 && a * b == sizeof(allocation_t), "STUB records"); allocation_t *r = &rec_[nrec++]; *r = (allocation_t){0}; return r; } static void t_free(void *p) { }
static void *mk[2], *mv[2]; static char themap_[8];
hashmap_t *hashmap_create(size_t c, hash_key_fn h, key_free_fn kf, value_free_fn vf, key_equality_fn eq, hashmap_lock_t *l) { return (void *)themap_; }
void *hashmap_get(hashmap_t *m, void *k) { for (int i = 0; i < 2; i++) if (mk[i] == k) return mv[i]; return NULL; }
void *hashmap_put(hashmap_t *m, void *k, void *v) { for (int i = 0; i < 2; i++) if (!mk[i]) { mk[i] = k; mv[i] = v; return NULL; } ENSURES(0, "STUB map full"); return NULL; }
void *hashmap_remove(hashmap_t *m, void *k) { for (int i = 0; i < 2; i++) if (mk[i] == k) { void *o = mv[i]; mk[i] = NULL; return o; } return NULL; }
void hashmap_foreach(hashmap_t *m, hashmap_iter_cb cb, void *x) { bool rev = BOOL(); for (int j = 0; j < 2; j++) { int i = rev ? 1 - j : j; if (mk[i] && !cb(mk[i], mv[i], x)) return; } }
void hashmap_free(hashmap_t *m) { nfree++; for (int i = 0; i < 2; i++) mk[i] = NULL; } void hashmap_clear(hashmap_t *m) { nclear++; for (int i = 0; i < 2; i++) mk[i] = NULL; }
int hash_function_pointer(const void *k) { return 0; }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { return 0; } int pthread_mutex_destroy(pthread_mutex_t *m) { return 0; } int pthread_mutex_lock(pthread_mutex_t *m) { return 0; } int pthread_mutex_unlock(pthread_mutex_t *m) { return 0; }
static char *P[2]; static size_t Z[2]; static int seen[2], ud;
static void rep(void *p, size_t s, const char *f, const char *fn, int line, void *u) { ENSURES(u == &ud, "the caller's argument"); int k = p == P[0] ? 0 : 1; ENSURES(p == P[k] && s == Z[k], "a live block with its size is reported"); seen[k]++; }
void vf_harness(void)
{
	nrec = expect_abort = nclear = nfree = 0; for (int i = 0; i < 2; i++) mk[i] = NULL, seen[i] = 0; allocations = NULL; canary_size = 0;
	int off = 0; ENSURES(allocation_tracker_expect_no_allocations(NULL, NULL) == 0, "tracking off: nothing outstanding"); ENSURES(allocation_tracker_notify_alloc(1, &off, 4, NULL, NULL, 0) == &off && allocation_tracker_notify_free(1, &off) == &off && allocation_tracker_ptr_size(1, &off) == 0 && allocation_tracker_resize_for_canary(5) == 5, "tracking off: transparent"); allocation_tracker_reset(); allocation_tracker_uninit();
	allocation_tracker_init(); int n = (int)RANGE(0, 2); size_t sum = 0;
	for (int i = 0; i < n; i++) { Z[i] = U64(); REQUIRES(Z[i] < (size_t)1 << 20); char *raw = vf_alloc(Z[i] + 16); P[i] = allocation_tracker_notify_alloc(1, raw, Z[i], "f", "g", 3); ENSURES(P[i] == raw + 8, "the content follows the guard"); sum += Z[i]; }
	for (int i = n; i < 2; i++) P[i] = NULL;
	if (n && BOOL()) { uint8_t g = U8() % 16; int k = (int)RANGE(0, 1); REQUIRES(k < n); char *x = g < 8 ? P[k] - 8 + g : P[k] + Z[k] + (g - 8), o = *x; *x = (char)U8(); REQUIRES(*x != o); expect_abort = 1; allocation_tracker_expect_no_allocations(rep, &ud); ENSURES(0, "overwritten guard bytes of an outstanding block are detected"); }
	bool cb = BOOL(); ENSURES(allocation_tracker_expect_no_allocations(cb ? rep : NULL, &ud) == sum, "the outstanding total is the sum of the live blocks"); for (int i = 0; i < n; i++) ENSURES(seen[i] == cb, "each live block reported once");
	if (n && BOOL()) { ENSURES(allocation_tracker_notify_free(1, P[0]) == P[0] - 8, "raw block"); ENSURES(allocation_tracker_expect_no_allocations(NULL, NULL) == sum - Z[0], "a freed block is no longer outstanding"); }
	if (BOOL()) { allocation_tracker_reset(); ENSURES(allocation_tracker_expect_no_allocations(NULL, NULL) == 0, "reset forgets the blocks"); REACH("reset"); } else { allocation_tracker_uninit(); ENSURES(allocations == NULL && nfree == 1, "tracking is off again, its map released"); ENSURES(allocation_tracker_expect_no_allocations(NULL, NULL) == 0 && allocation_tracker_resize_for_canary(5) == 5, "off"); }
}
