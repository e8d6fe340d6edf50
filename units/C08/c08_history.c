/*VF
kind: history
functions: hashmap_create hashmap_put hashmap_get hashmap_remove hashmap_clear hashmap_foreach hashmap_size hashmap_free hash_function_string hash_function_integer
fuzz: 20
san: address
*/
#include "vf.h"
#include <malloc.h>
#include <errno.h>
#include "data/hashmap.h"
#include "data/hash_functions.h"
static int live; static bool oom;
static void *m_(size_t n) { if (oom) return NULL; live++; return malloc(n); }
static void *c_(size_t a, size_t b) { if (oom) return NULL; live++; return calloc(a, b); }
static void f_(void *p) { if (p) live--; free(p); }
#define malloc m_
#define calloc c_
#define free f_
#include "src/data/hashmap.c"
#undef malloc
#undef calloc
#undef free
#include "src/data/hash_functions.c"
#define NK 40
static char keys[2][NK][8]; static int hmode, acqs, rels, nk, nv, seen[NK], nseen, stop; static const void *lastk; static void *lastv;
static uintptr_t val[NK]; static const void *kp[NK]; static size_t cnt;
static int kid(const void *k) { return atoi((const char *)k + 1); }
static int h(const void *k) { return hmode == 0 ? 7 : hmode == 1 ? hash_function_string(k) : hmode == 2 ? kid(k) % 3 : hash_function_integer((void *)(uintptr_t)kid(k)); }
static bool eq(const void *a, const void *b) { return strcmp(a, b) == 0; }
static void kf(void *k) { nk++; lastk = k; }
static void vf(void *v) { nv++; lastv = v; }
static int acq(void *a) { acqs++; ENSURES(a == &live, "lock argument"); return 0; }
static int rel(void *a) { rels++; ENSURES(rels <= acqs, "unlock without lock"); return 0; }
static bool vis(void *k, void *v, void *c) { int i = kid(k); ENSURES(c == &cnt && nseen < stop, "no visit after stop"); ENSURES(i < NK && kp[i] == k && val[i] == (uintptr_t)v && val[i], "visits stored pairs"); seen[i]++; nseen++; return nseen < stop; }
void vf_harness(void)
{
	for (int i = 0; i < NK; i++) { snprintf(keys[0][i], 8, "k%d", i); snprintf(keys[1][i], 8, "k%d", i); val[i] = 0; kp[i] = NULL; }
	ENSURES(hash_function_string(keys[0][3]) == hash_function_string(keys[1][3]), "equal strings hash equally");
	hmode = U8() % 4; acqs = rels = live = 0; cnt = 0; oom = false;
	bool dk = BOOL(), dv = BOOL(); hashmap_lock_t lk = { &live, acq, rel }; bool hl = BOOL();
	hashmap_t *t = hashmap_create(U8() % 20, h, dk ? kf : NULL, dv ? vf : NULL, eq, hl ? &lk : NULL);
	int ops = (int)RANGE(0, 120), krange = 1 + U8() % NK;
	while (ops-- > 0) {
		int op = U8() % 16, i = U8() % krange; void *k = keys[U8() & 1][i]; nk = nv = 0;
		if (op < 8) {
			oom = U8() % 8 == 0; uintptr_t v = 1 + U8() % 9; bool there = val[i]; uintptr_t ov = val[i];
			errno = 0; void *r = hashmap_put(t, k, (void *)v);
			ENSURES((uintptr_t)r == (there ? ov : 0), "put returns the old value");
			ENSURES(nv == (there && dv) && (!nv || (uintptr_t)lastv == ov) && nk == 0, "old value released");
			if (there || !oom) { if (!there) { cnt++; kp[i] = k; } val[i] = v; } else ENSURES(errno == ENOMEM, "errno");
			oom = false;
		} else if (op < 11) {
			void *r = hashmap_remove(t, k);
			ENSURES((uintptr_t)r == val[i], "remove returns the value");
			ENSURES(nk == (dk && val[i]) && nv == (dv && val[i]) && (!nk || lastk == kp[i]) && (!nv || (uintptr_t)lastv == val[i]), "released");
			if (val[i]) { cnt--; val[i] = 0; kp[i] = NULL; }
		} else if (op == 11 && U8() % 6 == 0) {
			hashmap_clear(t); ENSURES(nk == (dk ? (int)cnt : 0) && nv == (dv ? (int)cnt : 0), "clear releases all");
			for (int j = 0; j < NK; j++) val[j] = 0, kp[j] = NULL;
			cnt = 0;
		}
		ENSURES(hashmap_size(t) == cnt && live == (int)cnt + 2, "size");
		for (int j = 0; j < krange; j++) ENSURES((uintptr_t)hashmap_get(t, keys[U8() & 1][j]) == val[j], "lookup");
		stop = BOOL() ? 1000 : 1 + U8() % 5; nseen = 0; memset(seen, 0, sizeof seen); hashmap_foreach(t, vis, &cnt);
		ENSURES(nseen == (cnt < (size_t)stop ? (int)cnt : stop), "iteration"); for (int j = 0; j < NK; j++) ENSURES(seen[j] <= 1, "each once");
		ENSURES(acqs == rels, "locks");
	}
	nk = nv = 0; hashmap_free(t); ENSURES(live == 0 && nk == (dk ? (int)cnt : 0) && nv == (dv ? (int)cnt : 0) && acqs == rels, "free releases all");
}
