/*VF
kind: full
functions: fixed_msg_queue_create fixed_msg_queue_destroy
unwind: 9
nobmc: 1
assumes: RingBuffer_create_with_mem and RingBuffer_destroy by their contracts (discharged in C11) | message size and count such that their product is below 2^31
*/
#define VF_OWN_CREATE
#include "absring.inc"
#ifdef VF_CBMC
static _Bool vf_oom, vf_live; static uint64_t vf_msz; static char *vf_blk; static uint32_t vf_room;
static void *vf_malloc(size_t a) { if (vf_oom) return 0; vf_msz = a; vf_blk = vf_alloc(a); vf_live = 1; return vf_blk; }
static void vf_free(void *p) { ENSURES(vf_live && p == vf_blk, "frees the block it allocated, once"); vf_live = 0; (free)(p); }
void RingBuffer_destroy(ring_buffer_handle *p) { if (p) *p = 0; }
ring_buffer_handle RingBuffer_create(uint32_t n) { __CPROVER_assert(0, "STUB ring creation"); return 0; }
ring_buffer_handle RingBuffer_create_with_mem(void *m, uint32_t n)
{
	ENSURES((char *)m >= vf_blk && (uint64_t)((char *)m - vf_blk) + n <= vf_msz, "the ring's memory lies inside the allocated block");
	ENSURES((uint64_t)((char *)m - vf_blk) >= sizeof(struct { void *a; uint32_t b; }), "the ring's memory does not overlap the queue header");
	vf_room = n;
	if (n < 32 + 4) return 0;
	struct __ring_buffer_t *r = m; r->size = 4; r->in = r->out = 0;
	return r;
}
#include <malloc.h>
#define malloc vf_malloc
#define free vf_free
#endif
#include "src/ring/fixed_msg_queue.c"
#undef malloc
#undef free
void vf_harness(void)
{
#ifdef VF_CBMC
	uint32_t s = RANGE(0, 4095), n = RANGE(0, 4095); vf_oom = BOOL();
#else
	uint32_t s = RANGE(0, 70), n = RANGE(0, 70); (void)BOOL();
#endif
	fixed_msg_queue q = fixed_msg_queue_create(s, n);
#ifdef VF_CBMC
	ENSURES(!q == !vf_live, "nothing leaks when creation fails");
	if ((uint64_t)s * n >= 64 && !vf_oom) ENSURES(q, "created");
	if (q) ENSURES(vf_room <= (uint64_t)s * n, "the storage never holds more than the requested number of messages");
#else
	if (s * n >= 64) ENSURES(q, "created");
	if (q) ENSURES(fixed_msg_queue_available_push_amount(q) <= n, "never more than the requested number of messages");
#endif
	if (q) ENSURES(q->one_msg_byte_size == s && fixed_msg_queue_is_empty(q) && fixed_msg_queue_available_pop_amount(q) == 0, "starts empty");
	fixed_msg_queue_destroy(&q);
	ENSURES(!q, "destroy clears the handle");
#ifdef VF_CBMC
	ENSURES(!vf_live, "destroy frees the block");
#endif
	fixed_msg_queue_destroy(&q); fixed_msg_queue_destroy(NULL);
	REACH("create");
}
