/*VF
kind: full
functions: list_append list_prepend list_insert_after list_front list_back list_back_node list_is_empty list_length list_begin list_end list_next list_node
unwind: 26
bound: 5
bunwind: 26
assumes: the allocator obeys its contract (fresh zeroed block or NULL)
*/
#include "list.inc"
void vf_harness(void)
{
	struct list_t *l = vf_list(); int op = (int)RANGE(0, 3);
	bool nul = U8() % 4 == 0; void *d = nul ? NULL : (void *)(uintptr_t)(1 + U8());
	size_t at = RANGE(0, vf_n ? vf_n - 1 : 0), n = vf_n;
	if (op == 2) REQUIRES(n > 0);
#ifdef VF_UNB
	SHAPE(at);
#endif
	void *d0 = n ? vf_A[0].data : 0, *dl = n ? vf_A[n - 1].data : 0, *dat = n ? vf_A[at].data : 0;
	ENSURES(list_length(l) == n && list_is_empty(l) == (n == 0), "length and emptiness");
	ENSURES(list_front(l) == d0 && list_back(l) == dl && list_back_node(l) == (n ? vf_A + n - 1 : NULL), "front and back");
	ENSURES(list_begin(l) == (n ? vf_A : NULL) && list_end(l) == NULL, "iteration starts at the front");
	if (n) ENSURES(list_node(vf_A + vf_w) == vf_wdata && list_next(vf_A + vf_w) == (vf_w + 1 < n ? vf_A + vf_w + 1 : NULL), "iteration visits the nodes in order");
	if (op == 3) { REACH("observers"); return; }
	bool r = op == 0 ? list_append(l, d) : op == 1 ? list_prepend(l, d) : list_insert_after(l, vf_A + at, d);
	ENSURES(r == (d != NULL && !vf_oom), "succeeds unless the element is NULL or memory is short");
	ENSURES(l->free_cb == NULL || l->free_cb == vf_cb, "callback kept"); ENSURES(vf_total_cb == 0 && vf_total_free == 0, "nothing is freed");
	struct list_node_t *nn = vf_new;
	if (!r) {
		ENSURES(l->length == n && l->head == (n ? vf_A : NULL) && l->tail == (n ? vf_A + n - 1 : NULL) && vf_allocs == 0, "a failure leaves the list unchanged");
		if (n) ENSURES(LINKED(vf_w) && vf_A[vf_w].data == vf_wdata, "a failure leaves every node unchanged");
		REACH("failure");
		return;
	}
	ENSURES(vf_allocs == 1 && l->length == n + 1 && nn->data == d, "one new node holds the element, the length grows by one");
	size_t p = op == 0 ? n : op == 1 ? 0 : at + 1;          /* position of the new element in the new sequence */
	ENSURES(p == 0 ? l->head == nn : l->head == vf_A && vf_A[p - 1].next == nn, "the new element follows its predecessor");
	ENSURES(nn->next == (p < n ? vf_A + p : NULL), "the new element precedes its successor");
	ENSURES(l->tail == (p == n ? nn : vf_A + n - 1), "the last node is the tail");
	if (n) { ENSURES(vf_A[vf_w].data == vf_wdata && (vf_w + 1 == p || LINKED(vf_w)), "every other element keeps its place"); }
	(void)dat;
	REACH("insert");
}
