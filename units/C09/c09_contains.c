/*VF
kind: loopinv
src: src/data/list.c
functions: list_contains list_foreach
unwind: 26
bound: 5
bunwind: 26
*/
static unsigned long vf_seen;
#ifdef VF_UNB
static _Bool vf_keep(void);
#endif
#define VF_INV_list_contains_1 ({ SHAPE(IDX(node)); IDX(node) <= vf_n && vf_keep() && IMPLIES(vf_w < IDX(node), vf_wdata != data); })
#define VF_HAV_list_contains_1 node = BOOL() ? (struct list_node_t *)0 : vf_A + OFF(vf_n ? vf_n - 1 : 0)
#define VF_DEC_list_contains_1 (vf_n - IDX(node))
#define VF_FRS_list_contains_1 VF_FRAME_SAVE(0, vf_l, sizeof *vf_l)
#define VF_FRC_list_contains_1 VF_FRAME_CHECK(0)
#define VF_INV_list_foreach_1 ({ SHAPE(IDX(node)); IDX(node) <= vf_n && vf_seen == IDX(node) && !vf_stopped && vf_keep(); })
#define VF_HAV_list_foreach_1 node = BOOL() ? (struct list_node_t *)0 : vf_A + OFF(vf_n ? vf_n - 1 : 0), vf_seen = IDX(node)
#define VF_DEC_list_foreach_1 (vf_n - IDX(node))
#define VF_FRS_list_foreach_1 VF_FRAME_SAVE(0, vf_l, sizeof *vf_l)
#define VF_FRC_list_foreach_1 VF_FRAME_CHECK(0)
static _Bool vf_stopped, vf_zap; static unsigned long vf_stop; static int vf_ctx;
#include "list.inc"
#ifdef VF_UNB
static _Bool vf_keep(void) { return vf_n == 0 || vf_A[vf_w].data == vf_wdata; }
#endif
static bool visit(void *d, void *ctx)
{
	ENSURES(ctx == &vf_ctx, "context is passed on");
	ENSURES(vf_seen < vf_n && !vf_stopped, "no visit after the end or after the callback asked to stop");
	ENSURES(d == vf_A[vf_seen < vf_n ? vf_seen : 0].data, "elements are visited in order, each once");
	vf_seen++;
	if (vf_seen - 1 == vf_stop) { vf_stopped = 1; return false; }
	if (vf_zap && vf_seen <= vf_n) vf_A[vf_seen - 1].next = (void *)(vf_A);   /* the callback may unlink and release the node it is given */
	return true;
}
void vf_harness(void)
{
	struct list_t *l = vf_list(); size_t n = vf_n;
	if (BOOL()) {
		void *d = BOOL() && n ? vf_wdata : (void *)(uintptr_t)(U8() % 6);
		bool r = list_contains(l, d);
		if (n && d == vf_wdata) ENSURES(r, "a stored element is found");
#ifndef VF_UNB
		bool e = false; for (size_t i = 0; i < n; i++) e |= d && vf_A[i].data == d;
		ENSURES(r == e, "membership");
#endif
		if (n == 0 || !d) ENSURES(!r, "nothing is found in an empty list");
		REACH("contains");
	} else {
		vf_seen = 0; vf_stopped = 0; vf_zap = BOOL(); vf_stop = RANGE(0, vf_n);
#ifdef VF_UNB
		SHAPE(vf_stop);
#endif
		struct list_node_t *r = list_foreach(l, visit, &vf_ctx);
		ENSURES(vf_stopped ? r == vf_A + vf_stop && vf_seen == vf_stop + 1 : r == NULL && vf_seen == n, "returns the node where it stopped, or visits everything");
		REACH("foreach");
	}
}
