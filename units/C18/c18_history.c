/*VF
kind: history
functions: lcu_malloc lcu_calloc lcu_realloc lcu_strdup lcu_strndup lcu_free lcu_free_and_reset allocation_tracker_init allocation_tracker_expect_no_allocations allocation_tracker_reset allocation_tracker_uninit hashmap_put hashmap_get hashmap_remove
fuzz: 20
san: address
*/
#include "al.inc"
#include <setjmp.h>
#include <string.h>
#include <stdlib.h>
#include <malloc.h>
static int raw, oom; static jmp_buf jb; static int armed;
static void *m_(size_t n) { if (oom || n > (size_t)1 << 26) return NULL; raw++; void *p = malloc(n); memset(p, 0xEE, n < 5000 ? n : 5000); return p; }
static void *c_(size_t a, size_t b) { size_t n; if (oom || __builtin_mul_overflow(a, b, &n) || n > (size_t)1 << 26) return NULL; raw++; return calloc(1, n); }
static void *r_(void *p, size_t n) { if (oom || n > (size_t)1 << 26) return NULL; if (!p) return m_(n); return realloc(p, n); }
static void f_(void *p) { if (p) raw--; free(p); }
static void vf_abort(void) { ENSURES(armed, "no false alarm: intact live blocks are accepted"); armed = 2; longjmp(jb, 1); }
static void *t_c(size_t a, size_t b) { return calloc(a, b); } static void t_f(void *p) { free(p); } static void *t_m(size_t n) { return malloc(n); }
#define abort vf_abort
#include "data/hashmap.h"
#define malloc t_m
#define calloc t_c
#define free t_f
#include "src/data/hashmap.c"
#undef PTR_TO_INT
#include "src/data/hash_functions.c"
#include "src/mem/strings.c"
#include "src/mem/allocation_tracker.c"
#undef malloc
#undef calloc
#undef free
#define malloc m_
#define calloc c_
#define realloc r_
#define free f_
#include "src/mem/allocator.c"
#undef malloc
#undef calloc
#undef realloc
#undef free
#undef abort
#define NB 12
static char *P[NB]; static size_t Z[NB]; static uint8_t tag[NB]; static int reps; static size_t repsum;
static void rep(void *p, size_t s, const char *f, const char *fn, int line, void *u) { for (int i = 0; i < NB; i++) if (P[i] == p && s >= Z[i]) { reps++; repsum += s; return; } ENSURES(0, "only live blocks are reported"); }
static void fill(int i) { for (size_t j = 0; j < Z[i]; j++) P[i][j] = (char)(tag[i] + j * 7); }
static void check(int i, size_t n) { for (size_t j = 0; j < n; j++) ENSURES(P[i][j] == (char)(tag[i] + j * 7), "content kept"); }
static size_t size(void) { switch (U8() % 4) { case 0: return U8() % 4; case 1: return U8(); case 2: return U8() * 16; default: return 1 + U8() % 40; } }
static void bad(void *p, const char *msg) { armed = 1; if (!setjmp(jb)) { lcu_free(p); ENSURES(0, "bad free is detected"); } armed = 0; }
void vf_harness(void)
{
	bool on = U8() % 4 != 0; oom = 0; raw = 0; armed = 0; for (int i = 0; i < NB; i++) P[i] = NULL, Z[i] = 0; if (allocations) allocation_tracker_uninit();
	if (on) allocation_tracker_init();
	int ops = (int)RANGE(0, 60); static char str[600];
	while (ops-- > 0) {
		int op = U8() % 12, i = U8() % NB; oom = U8() % 8 == 0; bool tr = BOOL();
		if (op < 4) {
			if (P[i]) { oom = 0; check(i, Z[i]); lcu_free(P[i]); P[i] = NULL; continue; }
			size_t s = size(); char *p = NULL; size_t k = s % 500;
			if (op == 0) p = tr ? lcu_malloc_trace(s, "f", "g", 1) : lcu_malloc(s);
			else if (op == 1) { size_t c = U8() % 20; if (U8() % 16 == 0) { ENSURES(lcu_calloc((size_t)1 << 33, ((size_t)1 << 31) + U8()) == NULL && lcu_malloc(SIZE_MAX - U8() % 20) == NULL && lcu_realloc(NULL, SIZE_MAX - U8()) == NULL, "impossible sizes are refused"); } p = lcu_calloc(c, s); s *= c; if (p) for (size_t j = 0; j < s; j++) ENSURES(p[j] == 0, "calloc zeroes"); }
			else { memset(str, 'x', k); str[k] = 0; size_t m = op == 2 ? k : U8() * 3; s = op == 2 ? k + 1 : (k < m ? k : m) + 1; p = op == 2 ? lcu_strdup(str) : lcu_strndup(str, m); if (p) ENSURES(memcmp(p, str, s - 1) == 0 && p[s - 1] == 0 , "string copy"); }
			ENSURES((p != NULL) == !oom, "fails exactly when the C allocator does"); if (p) { P[i] = p; Z[i] = s; tag[i] = U8(); fill(i); }
		} else if (op < 7) {
			size_t s = size(); char *q = lcu_realloc(P[i], s);
			if (s == 0) { ENSURES(!q, "realloc 0"); P[i] = NULL; Z[i] = 0; }
			else if (!q) { ENSURES(oom, "realloc fails only with the C allocator"); if (P[i]) check(i, Z[i]); }
			else { size_t o = P[i] ? Z[i] : 0; P[i] = q; check(i, o < s ? o : s); Z[i] = s; tag[i] = U8(); fill(i); }
		} else if (op == 7) { void *pp = P[i]; if (P[i]) check(i, Z[i]); lcu_free_and_reset(&pp); ENSURES(!pp, "reset"); P[i] = NULL; }
		else if (op == 8 && on) {
			static char other[64]; bad(other + 16, "foreign");
			if (P[i]) { int r = raw; char *p = P[i]; check(i, Z[i]); lcu_free(p); ENSURES(raw == r - 1, "freed"); P[i] = NULL; bad(p, "double"); }
		} else if (op == 9 && on && P[i] && ops < 2) { size_t t = allocation_tracker_ptr_size(ALLOCTOR_ID, P[i]); int g = U8() % 16; char *x = g < 8 ? P[i] - 8 + g : P[i] + t + (g - 8); *x ^= (char)(1 << U8() % 8); bad(P[i], "overrun"); allocation_tracker_uninit(); return; }
		if (on) {
			size_t sum = 0, lo = 0; int n = 0; for (int j = 0; j < NB; j++) if (P[j]) { n++; lo += Z[j]; size_t t = allocation_tracker_ptr_size(ALLOCTOR_ID, P[j]); ENSURES(t >= Z[j], "size covers the request"); sum += t; }
			reps = 0; repsum = 0; ENSURES(allocation_tracker_expect_no_allocations(rep, NULL) == sum && reps == n && repsum == sum && sum >= lo, "outstanding total is the sum of the live blocks"); 
		} else ENSURES(allocation_tracker_expect_no_allocations(rep, NULL) == 0, "tracking off");
		int n = 0; for (int j = 0; j < NB; j++) n += P[j] != NULL; ENSURES(raw == n, "one raw block per live block");
	}
	oom = 0; for (int i = 0; i < NB; i++) if (P[i]) { check(i, Z[i]); lcu_free(P[i]); P[i] = NULL; }
	ENSURES(raw == 0 && allocation_tracker_expect_no_allocations(NULL, NULL) == 0, "everything released"); if (on) allocation_tracker_uninit();
}
