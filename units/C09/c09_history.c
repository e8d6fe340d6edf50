/*VF
kind: history
functions: list_new list_append list_prepend list_insert_after list_remove list_clear list_foreach list_contains list_front list_back list_free
fuzz: 20
*/
#include "vf.h"
#include "data/list.h"
#include "mem/allocator.h"
static bool vf_oom; static int live, cbs; static uintptr_t lastcb;
static void *al(size_t n) { if (vf_oom) return NULL; live++; return calloc(1, n); }
static void fr(void *p) { live--; free(p); }
const allocator_t allocator_malloc = { al, fr }, allocator_calloc = { al, fr };
#include "src/data/list.c"
static uintptr_t m[256]; static size_t n, seen;
static void cb(void *d) { cbs++; lastcb = (uintptr_t)d; }
static bool vis(void *d, void *c) { ENSURES(seen < n && (uintptr_t)d == m[seen], "order"); seen++; return seen != *(size_t *)c; }
void vf_harness(void)
{
	vf_oom = false; live = cbs = 0; n = 0;
	bool c = BOOL(); list_t *l = list_new(c ? cb : NULL); ENSURES(l, "new");
	size_t ops = SZ(0, 60);
	for (size_t k = 0; k < ops; k++) {
		int op = (int)RANGE(0, 9); uintptr_t d = U8() % 6; cbs = 0; bool r; vf_oom = op < 5 && U8() % 8 == 0;
		if (op < 5) {
			size_t p = op < 2 ? n : op == 2 ? 0 : n ? 1 + RANGE(0, n - 1) : n;
			if (op < 2) r = list_append(l, (void *)d); else if (op == 2) r = list_prepend(l, (void *)d);
			else { if (!n) continue; list_node_t *x = list_begin(l); for (size_t i = 1; i < p; i++) x = list_next(x); r = list_insert_after(l, x, (void *)d); }
			ENSURES(r == (d && !vf_oom), "insert result");
			if (r) { for (size_t i = n; i > p; i--) m[i] = m[i - 1]; m[p] = d; n++; }
		} else if (op < 8) {
			size_t f; for (f = 0; f < n && m[f] != d; f++) ;
			r = list_remove(l, (void *)d);
			ENSURES(r == (f < n), "remove result"); ENSURES(cbs == (c && r), "callback");
			if (r) { if (c) ENSURES(lastcb == d, "callback element"); for (size_t i = f; i + 1 < n; i++) m[i] = m[i + 1]; n--; }
		} else if (op == 8 && U8() % 8 == 0) { list_clear(l); ENSURES(cbs == (c ? (int)n : 0), "clear callbacks"); n = 0; }
		vf_oom = false;
		size_t i = 0;
		for (list_node_t *x = list_begin(l); x != list_end(l); x = list_next(x), i++) ENSURES(i < n && (uintptr_t)list_node(x) == m[i], "sequence");
		ENSURES(i == n && list_length(l) == n && list_is_empty(l) == (n == 0) && live == (int)n + 1, "length");
		ENSURES((uintptr_t)list_front(l) == (n ? m[0] : 0) && (uintptr_t)list_back(l) == (n ? m[n - 1] : 0), "ends");
		ENSURES(n == 0 ? !list_back_node(l) : (uintptr_t)list_node(list_back_node(l)) == m[n - 1], "back node");
		bool e = false; for (i = 0; i < n; i++) e |= m[i] == d;
		ENSURES(list_contains(l, (void *)d) == e, "contains");
		size_t stop = RANGE(0, 8); seen = 0; list_node_t *x = list_foreach(l, vis, &stop);
		ENSURES(stop && stop <= n ? x && seen == stop : !x && seen == n, "foreach");
	}
	cbs = 0; list_free(l); ENSURES(live == 0 && cbs == (c ? (int)n : 0), "free");
}
