/*VF
kind: full
functions: list_new list_new_internal list_free list_clear
unwind: 20
nobmc: 1
*/
#include "list.inc"
void vf_harness(void)
{
	vf_oom = BOOL(); vf_allocs = 0; vf_listfree = 0; vf_n = 0; bool cb = BOOL(); vf_total_free = vf_total_cb = 0;
	struct list_t *l = list_new(cb ? vf_cb : NULL);
	ENSURES((l != NULL) == !vf_oom, "created unless memory is short");
	if (l) {
		ENSURES(list_length(l) == 0 && list_is_empty(l) && !list_front(l) && !list_back(l) && !list_back_node(l) && !list_begin(l) && !l->tail, "starts empty");
		ENSURES(l->free_cb == (cb ? vf_cb : NULL) && l->allocator == &allocator_calloc, "keeps the callback");
		vf_l = l; list_free(l); ENSURES(vf_listfree == 1 && vf_total_cb == 0, "freed once");
		REACH("new");
	}
	list_free(NULL); list_clear(NULL);
	ENSURES(!list_append(NULL, &vf_n) && !list_prepend(NULL, &vf_n) && !list_remove(NULL, &vf_n) && list_length(NULL) == 0 && !list_contains(NULL, &vf_n) && !list_foreach(NULL, 0, 0) && !list_front(NULL) && !list_back(NULL), "no list, no effect");
}
