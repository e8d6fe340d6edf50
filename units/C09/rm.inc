static unsigned long vf_f; /* ghost: index of the first match, or n */
#define VF_INV_list_remove_1 ({ SHAPE(IDX(node)); __CPROVER_assume(IMPLIES(IDX(node) < vf_f, vf_A[IDX(node) < vf_n ? IDX(node) : 0].data != data)); IDX(node) >= 1 && IDX(node) <= vf_n && prev == vf_A + IDX(node) - 1 && IDX(node) <= vf_f && (vf_n == 0 || vf_A[vf_w].data == vf_wdata) && vf_total_free == 0 && vf_total_cb == 0; })
#define VF_HAV_list_remove_1 node = BOOL() ? (struct list_node_t *)0 : vf_A + OFF(vf_n ? vf_n - 1 : 0), prev = vf_A + OFF(vf_n ? vf_n - 1 : 0)
#define VF_DEC_list_remove_1 (vf_n - IDX(node))
#define VF_FRS_list_remove_1 VF_FRAME_SAVE(0, vf_l, sizeof *vf_l)
#define VF_FRC_list_remove_1 VF_FRAME_CHECK(0)
#define VF_INV_list_clear_1 ({ SHAPE(IDX(node)); IDX(node) <= vf_n && vf_total_free == IDX(node) && vf_total_cb == (list->free_cb ? vf_total_free : 0) && vf_nfree_w == (vf_w < IDX(node)) && list->length == vf_n - IDX(node) && IMPLIES(vf_w >= IDX(node) && vf_w < vf_n, vf_A[vf_w].data == vf_wdata); })
#define VF_HAV_list_clear_1 node = BOOL() ? (struct list_node_t *)0 : vf_A + OFF(vf_n ? vf_n - 1 : 0), vf_total_free = IDX(node), vf_total_cb = list->free_cb ? vf_total_free : 0, vf_nfree_w = vf_w < vf_total_free, list->length = vf_n - vf_total_free, vf_havarena()
#define VF_DEC_list_clear_1 (vf_n - IDX(node))
#include "list.inc"
#ifdef VF_UNB
static void vf_havarena(void) { __CPROVER_havoc_object(vf_A); }
#endif
void vf_harness(void)
{
	struct list_t *l = vf_list(); size_t n = vf_n; bool cb = l->free_cb != NULL;
	int op = (int)RANGE(OPLO, OPHI);
	if (op == 0) {
		size_t f = vf_f = RANGE(0, n);
		void *d = (void *)(uintptr_t)(U8() % 6);
#ifdef VF_UNB
		SHAPE(f);
#ifndef VF_CUTS
#error needs cuts
#endif
		/* f is by definition the first index holding d */
		if (f < n) REQUIRES(vf_A[f].data == d);
		REQUIRES(IMPLIES(vf_w < f && n, vf_wdata != d));
		if (n && f > 0) REQUIRES(vf_A[0].data != d);
#else
		for (f = 0; f < n && vf_A[f].data != d; f++) ;
		vf_f = f;
#endif
		struct list_node_t *succ = f < n ? vf_A[f].next : NULL;
		bool r = list_remove(l, d);
		ENSURES(r == (d != NULL && f < n), "removes when an element matches");
		if (!r) {
			ENSURES(l->length == n && l->head == (n ? vf_A : NULL) && l->tail == (n ? vf_A + n - 1 : NULL) && vf_total_free == 0 && vf_total_cb == 0, "otherwise nothing changes");
			if (n) ENSURES(LINKED(vf_w) && vf_A[vf_w].data == vf_wdata, "otherwise every node stays");
			
		} else {
			ENSURES(l->length == n - 1 && vf_total_free == 1 && vf_total_cb == (cb ? 1 : 0), "one element less, one node freed, callback run once");
			ENSURES((vf_nfree_w == 1) == (vf_w == f), "the first matching node is the one freed");
			if (cb && vf_w == f) ENSURES(vf_ncb_w == 1, "the callback gets the removed element");
			ENSURES(f == 0 ? l->head == succ : l->head == vf_A && vf_A[f - 1].next == succ, "its predecessor is linked to its successor");
			ENSURES(l->tail == (f + 1 < n ? vf_A + n - 1 : f ? vf_A + f - 1 : NULL), "the last node is the tail");
			if (vf_w != f) ENSURES(vf_A[vf_w].data == vf_wdata && (vf_w + 1 == f || LINKED(vf_w)), "every other element keeps its place");
			
		}
	} else {
		if (op == 1) list_clear(l); else list_free(l);
		ENSURES(vf_total_free == n + (op == 2) && vf_total_cb == (cb ? n : 0), "every node is freed once, the callback runs once per element");
		if (n) ENSURES(vf_nfree_w == 1, "each node exactly once");
		ENSURES(vf_listfree == (op == 2), "the list itself is freed only by free");
		if (op == 1) ENSURES(!l->head && !l->tail && l->length == 0 && list_is_empty(l), "clear leaves an empty list");
		
	}
	REACH("done");
}
