/*VF
kind: full
src: src/mem/allocator.c
functions: lcu_realloc_trace lcu_realloc lcu_malloc_trace lcu_malloc lcu_free
unwind: 4
nobmc: 1
san: nonat
cases: 0 1 2
casejobs: 3
timeout: 200
assumes: requests above 16 MB are refused by the C allocator | malloc/realloc/free and memcpy by the ISO C contracts | allocation_tracker_* by their contracts (the real ones are verified together with malloc, calloc, strdup and free in c18_alloc) | tracking is on (off: c18_alloc)
*/
#include "al.inc"
#include "mem/allocation_tracker.h"
#include "mem/allocator.h"
#include "mem/strings.h"
static void *h_malloc(size_t n), *h_calloc(size_t a, size_t b), *h_realloc(void *p, size_t n), h_free(void *p), *c_memcpy(void *d, const void *s, size_t n); static size_t c_strlen(const char *s), c_strnlen(const char *s, size_t n);
#define memcpy c_memcpy
#define memmove c_memcpy
#define strnlen c_strnlen
#define abort vf_abort
#define malloc h_malloc
#define calloc h_calloc
#define realloc h_realloc
#define free h_free
#define strlen c_strlen
#include "src/mem/allocator.c"
#undef malloc
#undef calloc
#undef realloc
#undef free
#undef strlen
#undef memcpy
#undef abort
static int allocs, frees, oom; static void *freed[2]; static size_t w;
static struct { char *p; size_t s; bool live; } B[3]; static int nb;
static void vf_abort(void) { ENSURES(0, "no false alarm: live blocks are accepted"); REQUIRES(0); }
static int bfind(const void *p) { for (int i = 0; i < nb; i++) if (B[i].live && B[i].p == p) return i; return -1; }
static void *h_malloc(size_t n) { if (n > (size_t)1 << 24 || BOOL()) { oom = 1; return NULL; } allocs++; return vf_alloc(n); }
static void *h_calloc(size_t a, size_t b) { ENSURES(0, "STUB calloc"); return NULL; }
static void h_free(void *p) { ENSURES(p && __CPROVER_POINTER_OFFSET(p) == 0 && frees < 2 && (frees == 0 || freed[0] != p), "the raw block is freed, once"); for (int i = 0; i < nb; i++) ENSURES(!B[i].live || !__CPROVER_same_object(p, B[i].p), "the raw memory of a block still accounted is never released"); freed[frees++] = p; }
static void *h_realloc(void *p, size_t n) { ENSURES(0, "a tracked block has a guard in front of it"); return NULL; }
static void *c_memcpy(void *d, const void *s, size_t n)
{
	if (!n) return d;
	ENSURES(__CPROVER_r_ok(s, n), "copy: source readable"); ENSURES(__CPROVER_w_ok(d, n), "copy: destination writable");
	int k = bfind(d); ENSURES(k >= 0 && n <= B[k].s, "the copy stays between the guards of the new block"); k = bfind(s); ENSURES(k >= 0 && n <= B[k].s, "the copy reads the content of the old block only");
	if (w < n) ((char *)d)[w] = ((const char *)s)[w];
	return d;
}
static size_t c_strlen(const char *s) { ENSURES(0, "STUB strlen"); return 0; }
static size_t c_strnlen(const char *s, size_t n) { ENSURES(0, "STUB strnlen"); return 0; }
/* the tracker, by contract */
void *allocation_tracker_notify_alloc(allocator_id_t id, void *ptr, size_t n, const char *f, const char *fn, int line)
{
	if (!ptr) return ptr;
	ENSURES(id == ALLOCTOR_ID && nb < 3, "STUB records"); ENSURES(__CPROVER_POINTER_OFFSET(ptr) == 0 && n <= SIZE_MAX - 16 && __CPROVER_w_ok(ptr, n + 16), "room for the content and both guards");
	char *p = (char *)ptr + 8; ENSURES(bfind(p) < 0, "not accounted twice"); B[nb].p = p; B[nb].s = n; B[nb].live = true; nb++; return p;
}
void *allocation_tracker_notify_free(allocator_id_t id, void *ptr) { if (!ptr) return ptr; int k = bfind(ptr); ENSURES(id == ALLOCTOR_ID && k >= 0, "only a live block is released (anything else aborts the program)"); REQUIRES(k >= 0); B[k].live = false; return (char *)ptr - 8; }
size_t allocation_tracker_ptr_size(allocator_id_t id, void *ptr) { if (!ptr) return 0; int k = bfind(ptr); ENSURES(id == ALLOCTOR_ID && k >= 0, "only the size of a live block is asked for (anything else aborts the program)"); REQUIRES(k >= 0); return B[k].s; }
size_t allocation_tracker_resize_for_canary(size_t n) { return n + 16; }
#ifndef VF_CASE
#define VF_CASE 0
#endif
void vf_harness(void)
{
	/* VF_CASE: 0 old block, not larger; 1 old block, larger; 2 no old block */
	allocs = frees = oom = nb = 0; for (int i = 0; i < 3; i++) { B[i].live = false; B[i].p = NULL; B[i].s = 0; }
	w = U64(); REQUIRES(w < (size_t)1 << 60); size_t s = U64(), n = U64(); bool tr = BOOL(); char *p = NULL, byte = 0; const char *f = BOOL() ? "file" : NULL;
	if (VF_CASE < 2) { REQUIRES(s <= ((size_t)1 << 24) - 16 && (VF_CASE ? n > s : n <= s)); char *raw = vf_alloc(s + 16); p = raw + 8; B[0].p = p; B[0].s = s; B[0].live = true; nb = 1; if (w < s) byte = p[w]; }
	char *q = tr ? lcu_realloc_trace(p, n, f, f, 2) : lcu_realloc(p, n);
	if (n == 0) { ENSURES(!q && frees == (p != NULL), "realloc to size 0 frees"); for (int i = 0; i < nb; i++) ENSURES(!B[i].live, "nothing stays accounted"); if (VF_CASE != 1) REACH("freed by realloc"); return; }
	int live = 0; for (int i = 0; i < nb; i++) live += B[i].live;
	if (!q) {
		ENSURES(oom || n > (size_t)-1 - 4096, "fails only when the C allocator does"); ENSURES(frees == 0 && live == (p != NULL) && (!p || bfind(p) == 0) && B[0].s == (p ? s : 0), "a failed realloc keeps the old block"); if (p && w < s) ENSURES(p[w] == byte, "a failed realloc keeps the content");
		if (VF_CASE) REACH("failed"); return;
	}
	int k = bfind(q); ENSURES(k >= 0 && live == 1, "exactly the result is accounted"); ENSURES(B[k].s >= n && __CPROVER_w_ok(q, n), "the whole requested size is usable");
	ENSURES(frees == (p && q != p), "the old block is freed, once"); if (p && w < s && w < n) ENSURES(q[w] == byte, "content kept up to the smaller size");
	REACH("resized");
}
