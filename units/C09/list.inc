/* arbitrary list: its n nodes are the elements A[0..n) of one block (addresses of nodes are only compared for identity),
 * linked in index order; element pointers are arbitrary non-NULL values. */
#define VF_NW 4
#include "vf.h"
#include "data/list.h"
#include "mem/allocator.h"
struct list_node_t; static size_t vf_n; static struct list_node_t *vf_A;
static _Bool vf_oom; static int vf_allocs, vf_nfree_w, vf_ncb_w, vf_listfree; static size_t vf_w; static void *vf_wdata; static void *vf_new; static size_t vf_total_free, vf_total_cb;
static struct list_t *vf_l;
static void *vf_al(size_t n);
static void vf_fr(void *p);
static void vf_cb(void *d);
const allocator_t allocator_malloc = { vf_al, vf_fr }, allocator_calloc = { vf_al, vf_fr };
#ifdef VF_UNB
#define IDX(p) ((p) == 0 ? vf_n : __CPROVER_same_object((p), vf_A) && (__CPROVER_POINTER_OFFSET(p) & 15) == 0 && (__CPROVER_POINTER_OFFSET(p) >> 4) < vf_n ? (size_t)(__CPROVER_POINTER_OFFSET(p) >> 4) : SIZE_MAX)
/* the list's shape, instantiated at index k (the write stores the value just assumed; it tells the verifier which object is meant) */
#define SUCC(k) ((k) + 1 < vf_n ? vf_A + (k) + 1 : (struct list_node_t *)0)
#define SHAPE(k) vf_shape(k)
static void vf_shape(size_t k);
#endif
#include "src/data/list.c"
#ifdef VF_UNB
static void vf_shape(size_t k)
{
	if (k < vf_n) { __CPROVER_assume(vf_A[k].next == SUCC(k) && vf_A[k].data != 0); vf_A[k].next = SUCC(k); }
}
#endif
static void *vf_al(size_t n)
{
	if (vf_oom) return NULL;
	char *p = vf_alloc(n); memset(p, 0, n); vf_allocs++; vf_new = p; return p;
}
static void vf_fr(void *p)
{
	vf_total_free++;
#ifdef VF_UNB
	if (p == vf_l) { vf_listfree++; return; }
	__CPROVER_assert(__CPROVER_same_object(p, vf_A), "ENSURES frees only nodes of the list");
	if (p == vf_A + vf_w) vf_nfree_w++;
	struct list_node_t *q = p; q->next = nondet_ptr(); q->data = nondet_ptr();   /* content is gone after the free */
#else
	if (p == vf_l) { vf_listfree++; return; }
	for (size_t i = 0; i < vf_n; i++) if (p == vf_A + i) { if (i == vf_w) vf_nfree_w++; vf_A[i].next = (void *)1; vf_A[i].data = 0; return; }
	ENSURES(0, "frees only nodes of the list");
#endif
}
static void vf_cb(void *d) { vf_total_cb++; if (d == vf_wdata) vf_ncb_w++; }
static struct list_t *vf_list(void)
{
	struct list_t *l = vf_alloc(sizeof *l);
	vf_n = SZ(0, (size_t)1 << 24);
	vf_A = vf_alloc((vf_n + 1) * sizeof *vf_A);
#ifndef VF_UNB
	for (size_t i = 0; i < vf_n; i++) { vf_A[i].next = i + 1 < vf_n ? vf_A + i + 1 : NULL; vf_A[i].data = (void *)(uintptr_t)(1 + U8() % 4); }
#endif
	l->head = vf_n ? vf_A : NULL; l->tail = vf_n ? vf_A + vf_n - 1 : NULL; l->length = vf_n;
	l->free_cb = BOOL() ? vf_cb : NULL; l->allocator = &allocator_calloc;
	vf_oom = BOOL();
	vf_allocs = vf_nfree_w = vf_ncb_w = vf_listfree = 0; vf_total_free = vf_total_cb = 0;
	vf_w = RANGE(0, vf_n ? vf_n - 1 : 0);
#ifdef VF_UNB
	SHAPE(vf_w); SHAPE((size_t)0); if (vf_n) SHAPE(vf_n - 1);
#endif
	vf_wdata = vf_n ? vf_A[vf_w].data : NULL;
	return vf_l = l;
}
/* node k of the original sequence still links to its original successor */
#define LINKED(k) (vf_A[k].next == ((k) + 1 < vf_n ? vf_A + (k) + 1 : (struct list_node_t *)0))
