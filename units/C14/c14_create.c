/*VF
kind: full
functions: auto_cover_buf_create auto_cover_buf_destroy
unwind: 70
nobmc: 1
assumes: RingBuffer_create and RingBuffer_destroy by their contracts (discharged in C11)
*/
#define VF_OWN_CREATE
#include "absring.inc"
#undef assert
#include "common_macro.h"
#ifdef VF_CBMC
static _Bool vf_oom, vf_room_ok; static int vf_live;
static void *vf_calloc(size_t a, size_t b) { if (vf_oom) return 0; char *p = vf_alloc(a * b); for (size_t i = 0; i < a * b && i < 64; i++) p[i] = 0; vf_live++; return p; }
static void vf_free(void *p) { vf_live--; (free)(p); }
void RingBuffer_destroy(ring_buffer_handle *p) { if (p && *p) { (free)(*p); vf_live--; *p = 0; } }
ring_buffer_handle RingBuffer_create(uint32_t n)
{
	if (!vf_room_ok || n < 4 && BOOL()) return 0;
	struct __ring_buffer_t *r = vf_alloc(sizeof *r); uint32_t e = RANGE(1, 31); r->size = 1u << e; r->in = r->out = 0;
	__CPROVER_assume(r->size >= n);
	vf_live++; return r;
}
ring_buffer_handle RingBuffer_create_with_mem(void *m, uint32_t n) { __CPROVER_assert(0, "STUB ring creation"); return 0; }
#include <malloc.h>
#define calloc vf_calloc
#define free vf_free
#endif
#include "src/ring/autocover_buffer.c"
#undef calloc
#undef free
static int vf_acq, vf_rel, vf_arg;
static int acq(void *a) { ENSURES(a == &vf_arg, "argument"); vf_acq++; return 0; }
static int rel(void *a) { ENSURES(a == &vf_arg, "argument"); vf_rel++; return 0; }
void vf_harness(void)
{
	auto_cover_buf_lock_t lk = { &vf_arg, acq, rel }; bool l = BOOL(); vf_acq = vf_rel = 0;
#ifdef VF_CBMC
	uint32_t n = RANGE(0, 0xffffffffU); vf_oom = BOOL(); vf_room_ok = BOOL();
#else
	uint32_t n = RANGE(0, 5000); (void)BOOL(); (void)BOOL();
#endif
	auto_cover_buf_handle h = auto_cover_buf_create(n, l ? &lk : NULL);
#ifdef VF_CBMC
	ENSURES((h != 0) == (!vf_oom && vf_room_ok && (n >= 4 || h)) && vf_live == (h ? 2 : 0), "created, or nothing leaks");
#else
	if (n >= 4) ENSURES(h, "created");
#endif
	if (h) {
		uint32_t c = RingBuffer_real_capacity(h->ring);
		ENSURES(c >= n && h->ring_buffer_size == c && RingBuffer_available_read(h->ring) == 0, "starts empty, holds at least what was asked for");
		ENSURES((h->buf_lock.acquire == acq && h->buf_lock.release == rel && h->buf_lock.arg == &vf_arg) == l, "uses the lock it was given");
		if (!l) ENSURES(!h->buf_lock.acquire && !h->buf_lock.release, "no lock");
		REACH("created");
	}
	auto_cover_buf_destroy(&h);
	ENSURES(!h, "destroy clears the handle");
#ifdef VF_CBMC
	ENSURES(vf_live == 0, "destroy frees everything once");
#endif
	auto_cover_buf_destroy(&h); auto_cover_buf_destroy(NULL);
	ENSURES(vf_acq == 0 && vf_rel == 0, "no lock use");
}
