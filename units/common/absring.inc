/* The byte ring as its callers see it.
 * Deductive run: each RingBuffer_* function is replaced by its contract (a stream of bytes between two 32-bit
 * positions; the contract itself is discharged against ringbuffer.c by the units of C11).  Content is tracked exactly
 * at the watched stream positions.  Bounded, native and history runs use the real ringbuffer.c. */
#include "vf.h"
#include "nolog.h"
#ifdef VF_UNB
#include "ring/ringbuffer.h"
#ifndef VF_NP
#define VF_NP 8
#endif
struct __ring_buffer_t { uint32_t size, in, out; };
static uint32_t vf_pos[VF_NP]; static unsigned char vf_pv[VF_NP]; static int vf_np;
uint32_t RingBuffer_available_read(ring_buffer_handle r) { return r->in - r->out; }
uint32_t RingBuffer_available_write(ring_buffer_handle r) { return r->size - (r->in - r->out); }
uint32_t RingBuffer_real_capacity(ring_buffer_handle r) { return r->size; }
bool RingBuffer_is_empty(ring_buffer_handle r) { return r->in == r->out; }
bool RingBuffer_is_full(ring_buffer_handle r) { return r->in - r->out == r->size; }
uint32_t RingBuffer_current_read_position(ring_buffer_handle r) { return r->out; }
uint32_t RingBuffer_current_write_position(ring_buffer_handle r) { return r->in; }
void RingBuffer_clear(ring_buffer_handle r) { r->in = r->out = 0; }
uint32_t RingBuffer_peek(ring_buffer_handle r, void *t, uint32_t n)
{
	uint32_t a = r->in - r->out, g = n < a ? n : a;
	if (!r || !t || !g) return 0;
	__CPROVER_assert(__CPROVER_w_ok(t, g), "ENSURES ring read: the caller's buffer holds what is taken");
	for (int k = 0; k < VF_NP; k++) if (k < vf_np && vf_pos[k] - r->out < g) ((unsigned char *)t)[vf_pos[k] - r->out] = vf_pv[k];
	return g;
}
uint32_t RingBuffer_discard(ring_buffer_handle r, uint32_t n)
{ uint32_t a = r->in - r->out, g = n < a ? n : a; r->out += g; return g; }
uint32_t RingBuffer_read(ring_buffer_handle r, void *t, uint32_t n)
{ uint32_t g = RingBuffer_peek(r, t, n); r->out += g; return g; }
uint32_t RingBuffer_write(ring_buffer_handle r, const void *s, uint32_t n)
{
	uint32_t a = r->size - (r->in - r->out), g = n < a ? n : a;
	if (!r || !s || !g) return 0;
	__CPROVER_assert(__CPROVER_r_ok(s, g), "ENSURES ring write: source readable");
	for (int k = 0; k < VF_NP; k++) if (k < vf_np && vf_pos[k] - r->in < g) vf_pv[k] = ((unsigned char *)s)[vf_pos[k] - r->in];
	r->in += g;
	return g;
}
#ifndef VF_OWN_CREATE
void RingBuffer_destroy(ring_buffer_handle *p) { if (p) *p = 0; }
ring_buffer_handle RingBuffer_create(uint32_t n) { __CPROVER_assert(0, "STUB ring creation"); return 0; }
ring_buffer_handle RingBuffer_create_with_mem(void *m, uint32_t n) { __CPROVER_assert(0, "STUB ring creation"); return 0; }
#endif
#else
#include "src/ring/ringbuffer.c"
#endif
static struct __ring_buffer_t *vf_r; static uint32_t vf_in0, vf_out0, vf_cap;
#define LEN0 (vf_in0 - vf_out0)
#ifndef VF_RINGMAXE
#define VF_RINGMAXE 31
#endif
/* watch the byte at stream position p; returns its current value */
static unsigned char vf_watch(uint32_t p)
{
#ifdef VF_UNB
	unsigned char v = nondet_u8();
	for (int k = 0; k < VF_NP; k++) if (k < vf_np && vf_pos[k] == p) v = vf_pv[k];
	vf_pos[vf_np] = p; vf_pv[vf_np++] = v;
	return v;
#else
	return (unsigned char)vf_r->buf[p & (vf_cap - 1)];
#endif
}
/* byte at a watched position now */
static unsigned char vf_now(uint32_t p)
{
#ifdef VF_UNB
	for (int k = 0; k < VF_NP; k++) if (k < vf_np && vf_pos[k] == p) return vf_pv[k];
	__CPROVER_assert(0, "STUB watched position"); return 0;
#else
	return (unsigned char)vf_r->buf[p & (vf_cap - 1)];
#endif
}
static void vf_put(uint32_t p, unsigned char v)   /* set up content */
{
#ifdef VF_UNB
	for (int k = 0; k < VF_NP; k++) if (k < vf_np && vf_pos[k] == p) vf_pv[k] = v;
#else
	vf_r->buf[p & (vf_cap - 1)] = v;
#endif
}
static struct __ring_buffer_t *vf_ring(void)
{
	struct __ring_buffer_t *r = vf_alloc(sizeof *r);
	uint32_t e = SZ(1, VF_RINGMAXE);
#ifndef VF_UNB
	if (e > 5) e = 1 + e % 5;
#endif
	r->size = vf_cap = (uint32_t)1 << e;
#ifndef VF_UNB
#ifdef VF_BND
	REQUIRES(r->size <= VF_BOUND);
#endif
	r->need_free_myself = false;
	r->buf = BUF(r->size);
#endif
	r->out = U32();
	r->in = r->out + (uint32_t)RANGE(0, r->size);
	vf_in0 = r->in; vf_out0 = r->out;
	return vf_r = r;
}
