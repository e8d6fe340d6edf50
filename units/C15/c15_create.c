/*VF
kind: full
functions: msg_queue_create msg_queue_destroy
unwind: 9
nobmc: 1
assumes: RingBuffer_create_with_mem and RingBuffer_destroy by their contracts (discharged in C11)
*/
#define VF_OWN_CREATE
#include "absring.inc"
#undef assert
#include "common_macro.h"
#undef ASSERT_ABORT
#define ASSERT_ABORT(c) ENSURES(c, "assertion of the code (abort): " #c)
#ifdef VF_CBMC
static _Bool vf_oom, vf_live; static uint64_t vf_msz; static char *vf_blk; static int vf_frees;
static void *vf_malloc(size_t a) { if (vf_oom) return 0; vf_msz = a; vf_blk = vf_alloc(a); vf_live = 1; return vf_blk; }
static void vf_free(void *p) { ENSURES(vf_live && p == vf_blk, "frees the block it allocated, once"); vf_live = 0; vf_frees++; (free)(p); }
void RingBuffer_destroy(ring_buffer_handle *p) { if (p) *p = 0; }
ring_buffer_handle RingBuffer_create(uint32_t n) { __CPROVER_assert(0, "STUB ring creation"); return 0; }
ring_buffer_handle RingBuffer_create_with_mem(void *m, uint32_t n)
{
	ENSURES((char *)m >= vf_blk && (uint64_t)((char *)m - vf_blk) + n <= vf_msz, "the ring's memory lies inside the allocated block");
	ENSURES((uint64_t)((char *)m - vf_blk) >= sizeof(void *), "the ring's memory does not overlap the queue header");
	if (n < 32 + 4) return 0;
	struct __ring_buffer_t *r = m; r->size = 4; r->in = r->out = 0;
	return r;
}
#define malloc vf_malloc
#define free vf_free
#endif
#include "src/ring/msg_queue.c"
#undef malloc
#undef free
void vf_harness(void)
{
#ifdef VF_CBMC
	uint32_t n = RANGE(0, 0xffffffffU); vf_oom = BOOL();
#else
	uint32_t n = RANGE(0, 5000); (void)BOOL();
#endif
	msg_queue q = msg_queue_create(n);
#ifdef VF_CBMC
	ENSURES(!q == !vf_live, "nothing leaks when creation fails");
	if (n >= 32 + 4 && !vf_oom) ENSURES(q, "created");
#else
	if (n >= 40) ENSURES(q, "created");
#endif
	if (q) ENSURES(msg_queue_available_pop_bytes(q) == 0 && msg_queue_available_push_bytes(q) <= n && msg_queue_next_msg_size(q) == 0, "starts empty, inside the requested memory");
	msg_queue_destroy(&q);
	ENSURES(!q, "destroy clears the handle");
#ifdef VF_CBMC
	ENSURES(!vf_live, "destroy frees the block");
#endif
	msg_queue_destroy(&q); msg_queue_destroy(NULL);
	REACH("create");
}
