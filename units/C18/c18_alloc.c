/*VF
kind: full
src: src/mem/allocator.c src/mem/allocation_tracker.c
functions: lcu_malloc_trace lcu_malloc lcu_calloc_trace lcu_calloc lcu_realloc_trace lcu_realloc lcu_strdup_trace lcu_strdup lcu_strndup_trace lcu_strndup lcu_free lcu_free_and_reset allocation_tracker_init allocation_tracker_notify_alloc allocation_tracker_notify_free allocation_tracker_ptr_size allocation_tracker_resize_for_canary allocation_memory_corruption_checker
unwind: 10
nobmc: 1
san: nonat
cases: 0 1 2 3 34 35 66 67 98 99 130 131 4 5 6 7 9 11 15 17 24
casejobs: 6
timeout: 200
assumes: calloc item sizes 0, 1, 24, 4096, 2^33 | requests above 16 MB are refused by the C allocator | malloc/calloc/realloc/free, memcpy, strlen/strnlen by the ISO C contracts | hashmap_* by the map contract (discharged in C08), addresses being the keys | the tracker's own record is always allocated (it aborts otherwise) | strlcpy by its contract (discharged in C04)
*/
#include "al.inc"
#include "mem/allocation_tracker.h"
#include "mem/allocator.h"
#include "mem/strings.h"
#include "data/hashmap.h"
#include "data/hash_functions.h"
#include "thread/posix_thread.h"
static void *h_malloc(size_t n), *h_calloc(size_t a, size_t b), *h_realloc(void *p, size_t n), h_free(void *p), *t_calloc(size_t a, size_t b), t_free(void *p), *c_memcpy(void *d, const void *s, size_t n), *c_memmove(void *d, const void *s, size_t n); static size_t c_strlen(const char *s), c_strnlen(const char *s, size_t n); static void *c_memset(void *d, int c, size_t n);
#define memcpy c_memcpy
#define memmove c_memmove
#define memset c_memset
#define strnlen c_strnlen
#define abort vf_abort
#define malloc h_malloc
#define calloc h_calloc
#define realloc h_realloc
#define free h_free
#define strlen c_strlen
#include "src/mem/allocator.c"
#undef malloc
#undef calloc
#undef realloc
#undef free
#undef strlen
#define malloc t_malloc
#define calloc t_calloc
#define free t_free
#include "src/mem/allocation_tracker.c"
#undef malloc
#undef calloc
#undef free
#undef memcpy
#undef memset
#undef abort
/* raw heap */
static int allocs, frees, expect_abort, oom; static void *freed[2]; static size_t w;   /* w: an arbitrary offset */
static char *S; static size_t L, SN; static bool term;
static void vf_abort(void) { ENSURES(expect_abort, "no false alarm: intact live blocks are accepted"); REQUIRES(0); }
static void *h_malloc(size_t n) { if (n > (size_t)1 << 24 || BOOL()) { oom = 1; return NULL; } allocs++; return vf_alloc(n); }
static void *h_calloc(size_t a, size_t b) { ENSURES(b == 0 || a <= SIZE_MAX / b || a == 1, "the C allocator checks the product itself"); if (a * b > (size_t)1 << 24 || BOOL()) { oom = 1; return NULL; } allocs++; char *p = vf_alloc(a * b); if (w < a * b) p[w] = 0; if (w + 8 < a * b) p[w + 8] = 0; return p; }
static void h_free(void *p) { ENSURES(p && __CPROVER_POINTER_OFFSET(p) == 0 && frees < 2 && (frees == 0 || freed[0] != p), "the raw block is freed, once"); freed[frees++] = p; }
static void *h_realloc(void *p, size_t n) { ENSURES(!allocations, "a tracked block has a guard in front of it"); if (n > (size_t)1 << 24 || BOOL()) { oom = 1; return NULL; } char *q = vf_alloc(n), *o = p; if (o) { size_t sz = __CPROVER_OBJECT_SIZE(o); if (w < sz && w < n) q[w] = o[w]; h_free(o); } return q; }
/* guards are copied exactly; of anything else the watched offset, and the range written is remembered; all ranges are checked */
static char *cp_p; static size_t cp_n;
static void *c_memcpy(void *d, const void *s, size_t n)
{
	if (!n) return d;
	ENSURES(__CPROVER_r_ok(s, n), "copy: source readable"); ENSURES(__CPROVER_w_ok(d, n), "copy: destination writable");
	char *D = d; const char *T = s;
	if (s == canary) { ENSURES(n == 8, "the whole guard"); for (int i = 0; i < 8; i++) D[i] = T[i]; return d; }
	cp_p = D; cp_n = n; if (w < n) D[w] = T[w];
	return d;
}
static void *c_memmove(void *d, const void *s, size_t n) { return c_memcpy(d, s, n); }
static void *c_memset(void *d, int c, size_t n) { if (n) { ENSURES(__CPROVER_w_ok(d, n), "set: destination writable"); cp_p = d; cp_n = n; if (w < n) ((char *)d)[w] = (char)c; if (w + 8 < n) ((char *)d)[w + 8] = (char)c; } return d; }
static size_t c_strlen(const char *s) { if (s == canary) return 8; ENSURES(s == S && term, "strlen of a terminated string"); return L; }
static size_t c_strnlen(const char *s, size_t n) { ENSURES(s == S && (term || n <= SN), "strnlen inside the string"); return L < n ? L : n; }
size_t strlcpy(char *d, const char *s, size_t n) { ENSURES(n == 0 || __CPROVER_w_ok(d, n), "strlcpy inside its buffer"); if (n) d[n - 1] = 0; return n; }
/* the tracker's records and the map */
static int recs; static void *t_malloc(size_t n) { return vf_alloc(n); }
static allocation_t rec_[3]; static int nrec;
static void *t_calloc(size_t a, size_t b) { ENSURES(a == 1 && b == sizeof(allocation_t) && nrec < 3, "STUB one record per block"); allocation_t *r = &rec_[nrec++]; recs++; *r = (allocation_t){0}; return r; }
static void t_free(void *p) { recs--; }
static void *mk[3], *mv[3]; static int nput, nrem; static struct Hashmap *themap; static hash_key_fn mh; static key_equality_fn meq; static value_free_fn mvf;
hashmap_t *hashmap_create(size_t c, hash_key_fn h, key_free_fn kf, value_free_fn vf, key_equality_fn eq, hashmap_lock_t *l) { ENSURES(!themap && !kf && h && eq && l && l->acquire && l->release && l->arg, "one map, locked, keys are addresses"); mh = h; meq = eq; mvf = vf; return themap = vf_alloc(8); }
static int mfind(void *k) { for (int i = 0; i < 3; i++) if (mk[i] && mk[i] == k) return i; return -1; }
void *hashmap_get(hashmap_t *m, void *k) { ENSURES(m == themap, "the map"); int i = mfind(k); return i < 0 ? NULL : mv[i]; }
void *hashmap_put(hashmap_t *m, void *k, void *v) { ENSURES(m == themap && k && v, "the map"); nput++; int i = mfind(k); if (i >= 0) { void *o = mv[i]; if (mvf) mvf(o); mv[i] = v; return o; } for (i = 0; i < 3; i++) if (!mk[i]) { mk[i] = k; mv[i] = v; return NULL; } ENSURES(0, "STUB map full"); return NULL; }
void *hashmap_remove(hashmap_t *m, void *k) { ENSURES(m == themap, "the map"); nrem++; int i = mfind(k); if (i < 0) return NULL; void *o = mv[i]; mk[i] = NULL; mv[i] = NULL; if (mvf) mvf(o); return o; }
void hashmap_free(hashmap_t *m) { } void hashmap_clear(hashmap_t *m) { } void hashmap_foreach(hashmap_t *m, hashmap_iter_cb c, void *x) { }
int hash_function_pointer(const void *k) { return 0; }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { return 0; } int pthread_mutex_destroy(pthread_mutex_t *m) { return 0; } int pthread_mutex_lock(pthread_mutex_t *m) { return 0; } int pthread_mutex_unlock(pthread_mutex_t *m) { return 0; }
#ifndef VF_CASE
#define VF_CASE 24
#endif
static bool on;
static void live(char *p, size_t s, bool atleast)
{
	ENSURES(__CPROVER_w_ok(p, s), "the whole requested size is usable");
	if (on) {
		size_t t = allocation_tracker_ptr_size(ALLOCTOR_ID, p); if (cp_p && __CPROVER_same_object(cp_p, p)) ENSURES(cp_p >= p && cp_p + cp_n <= p + t, "the content is written between the guards"); ENSURES(atleast ? t >= s : t == s, "the block is accounted with its size"); ENSURES(__CPROVER_POINTER_OFFSET(p) >= 8 && __CPROVER_w_ok(p, t + 8), "the guards lie inside the raw block");
		int c = 0; for (int i = 0; i < 3; i++) c += mk[i] != NULL; ENSURES(c == 1 && mfind(p) >= 0 && recs == 1, "accounted exactly once");
	} else ENSURES(__CPROVER_POINTER_OFFSET(p) == 0 && nput == 0, "not tracked: the C allocator's block");
}
void vf_harness(void)
{
	/* VF_CASE: bit 0 tracking on, bits 1-2 the allocating call, bits 3-4: 0 free, 1 overwritten guard, 2 block not live, 3 realloc first; bits 5-7 the item size for calloc */
	on = VF_CASE & 1; allocs = frees = expect_abort = oom = nput = nrem = recs = nrec = 0; cp_p = NULL; themap = NULL; for (int i = 0; i < 3; i++) mk[i] = mv[i] = NULL;
	allocations = NULL; canary_size = 0; if (on) { allocation_tracker_init(); ENSURES(allocations && themap, "tracking is on"); allocation_tracker_init(); int x, y; ENSURES(meq(&x, &x) && !meq(&x, &y), "keys are compared by address"); }
	w = U64(); REQUIRES(w < (size_t)1 << 60); size_t s = U64(), n = 0; char *p; uint8_t op = (VF_CASE >> 1) & 3, ph = (VF_CASE >> 3) & 3; bool tr = BOOL(); const char *f = tr ? "file" : NULL;
	char byte = 0; bool hasbyte = false;
	if (op == 0) p = tr ? lcu_malloc_trace(s, f, f, 1) : lcu_malloc(s);
	else if (op == 1) {
		static const size_t Z[5] = { 1, 0, 24, 4096, (size_t)1 << 33 }; size_t c = U64(), z = Z[VF_CASE >> 5]; p = tr ? lcu_calloc_trace(c, z, f, f, 1) : lcu_calloc(c, z); unsigned __int128 prod = (unsigned __int128)c * z; ENSURES(prod <= SIZE_MAX - 16 || !p, "an impossible size is refused"); if (prod > SIZE_MAX - 16) { ENSURES(allocs == 0 && nput == 0, "refused without effect"); return; } s = c * z;
		if (p && w < s) ENSURES(p[w] == 0, "calloc zeroes every byte");
	} else {
		SN = U64(); REQUIRES(SN >= 1 && SN <= (size_t)1 << 40); S = vf_alloc(SN); term = BOOL(); L = term ? U64() : SN; REQUIRES(!term || L < SN); size_t k = U64(); if (term) S[L] = 0; else REQUIRES(op == 3 && k <= SN);
		if (op == 2) { k = L; p = tr ? lcu_strdup_trace(S, f, f, 1) : lcu_strdup(S); } else p = tr ? lcu_strndup_trace(S, k, f, f, 1) : lcu_strndup(S, k);
		size_t m = L < k ? L : k; s = m + 1; if (p) { if (w < m) { byte = S[w]; hasbyte = true; ENSURES(p[w] == byte, "the copy holds the string"); } if (w == m) ENSURES(p[w] == 0, "the copy is terminated"); }
	}
	if (!p) { ENSURES(oom || s > (size_t)-1 - 16, "fails only when the C allocator does"); ENSURES(nput == 0 && frees == 0, "a failure leaves nothing accounted"); (void)0; return; }
	ENSURES(frees == 0 && allocs == 1, "one raw block"); live(p, s, false);
	if (w < s && !hasbyte) { byte = (char)U8(); p[w] = byte; hasbyte = true; }
	if (w < s) byte = p[w];
	if (ph == 3) {
		n = U64(); oom = 0; char *q = tr ? lcu_realloc_trace(p, n, f, f, 2) : lcu_realloc(p, n);
		if (n == 0) { ENSURES(!q && frees == 1, "realloc to size 0 frees"); for (int i = 0; i < 3; i++) ENSURES(!mk[i], "nothing stays accounted"); return; }
		if (!q) { ENSURES(oom || n > (size_t)-1 - 4096, "fails only when the C allocator does"); ENSURES(frees == 0, "a failed realloc keeps the old block"); live(p, s, false); if (w < s) ENSURES(p[w] == byte, "a failed realloc keeps the content"); q = p; n = s; (void)0; }
		else { if (w < s && w < n) ENSURES(q[w] == byte, "content kept up to the smaller size"); if (q != p) { ENSURES(frees == 1, "the old block is freed once"); } live(q, n, true); REACH("realloc"); }
		p = q; s = n;
	}
	int f0 = frees; char *raw = p - __CPROVER_POINTER_OFFSET(p);
	uint8_t how = ph;
	if (on && how == 1) { size_t t = allocation_tracker_ptr_size(ALLOCTOR_ID, p); uint8_t g = U8() % 16; char *x = g < 8 ? p - 8 + g : p + t + (g - 8); char old = *x; *x = (char)U8(); REQUIRES(*x != old); expect_abort = 1; lcu_free(p); ENSURES(0, "freeing a block with overwritten guard bytes is detected"); }
	else if (on && how == 2 && BOOL()) { expect_abort = 1; static char other[32]; lcu_free(other + 8); ENSURES(0, "freeing a block that is not live is detected"); }
	else if (BOOL()) { void *pp = p; lcu_free_and_reset(&pp); ENSURES(!pp, "reset"); lcu_free_and_reset(&pp); lcu_free_and_reset(NULL); } else lcu_free(p);
	ENSURES(frees == f0 + 1 && freed[f0] == raw, "the raw block is returned to the C allocator, once");
	for (int i = 0; i < 3; i++) ENSURES(!mk[i], "nothing stays accounted"); ENSURES(recs == 0, "the record is released");
	lcu_free(NULL); ENSURES(frees == f0 + 1, "free(NULL) does nothing"); if (ph == 0 || ph == 3) REACH("freed");
	if (on && how == 2) { expect_abort = 1; lcu_free(p); ENSURES(0, "a second free of the same block is detected"); }
}
