/* arbitrary valid byte ring: capacity any power of two 2^1..2^31, positions anywhere, in-out <= capacity */
#ifndef VF_NW
#define VF_NW 3
#endif
#include "vf.h"
#include "nolog.h"
#ifdef VF_UNB
#ifdef VF_GHOST
/* the storage is a block nobody may dereference; memcpy's contract tracks the content of the watched slots */
static void *vf_memcpy_g(void *d, const void *s, size_t n);
#define memcpy vf_memcpy_g
#else
#define memcpy vf_memcpy_c
#endif
#endif
#include "src/ring/ringbuffer.c"
#undef memcpy
#ifndef VF_RINGMAXE
#define VF_RINGMAXE 31
#endif
static struct __ring_buffer_t *vf_r; static uint32_t vf_in0, vf_out0;
static inline uint32_t vf_off(uint32_t pos) { return pos & (vf_r->size - 1); }
static inline unsigned char vf_view(uint32_t i) { return (unsigned char)vf_r->buf[vf_off(vf_out0 + i)]; }  /* byte i after the old read position */
static struct __ring_buffer_t *vf_ring(void)
{
	struct __ring_buffer_t *r = vf_alloc(sizeof *r);
#ifdef VF_CASE
	uint32_t e = VF_CASE;
#else
	uint32_t e = SZ(1, VF_RINGMAXE);
#endif
#ifndef VF_UNB
	if (e > 5) e = 1 + e % 5;
#endif
	r->need_free_myself = false;
	r->size = (uint32_t)1 << e;
#ifdef VF_BND
	REQUIRES(r->size <= VF_BOUND);
#endif
#if defined(VF_UNB) && defined(VF_GHOST)
	r->buf = vf_alloc(0);
#else
	r->buf = BUF(r->size);
#endif
	r->out = U32();
	r->in = r->out + (uint32_t)RANGE(0, r->size);
	vf_in0 = r->in; vf_out0 = r->out;
	return vf_r = r;
}
#define LEN0 (vf_in0 - vf_out0)
static void vf_ring_ok(void)
{
	uint32_t rd = RingBuffer_available_read(vf_r), wr = RingBuffer_available_write(vf_r);
	ENSURES(rd <= vf_r->size && (uint64_t)rd + wr == RingBuffer_real_capacity(vf_r), "available read + available write = capacity");
	ENSURES(rd == vf_r->in - vf_r->out, "available read is what was written and not yet read");
	ENSURES(RingBuffer_is_empty(vf_r) == (rd == 0) && RingBuffer_is_full(vf_r) == (wr == 0), "empty and full agree with the amounts");
	ENSURES(RingBuffer_current_read_position(vf_r) == vf_r->out && RingBuffer_current_write_position(vf_r) == vf_r->in, "positions");
}

#if defined(VF_UNB) && defined(VF_GHOST)
static size_t vf_oi, vf_oj;              /* watched slots */
static unsigned char vf_gi, vf_gj;       /* their content */
static const unsigned char *vf_usr; static size_t vf_usrn;  /* the caller's buffer */
static size_t vf_k; static unsigned char vf_kv;              /* watched index of the caller's buffer and its content */
static void *vf_memcpy_g(void *d, const void *s, size_t n)
{
	if (n == 0) return d;
	bool wr = __CPROVER_same_object(d, vf_r->buf);
	const char *ring = wr ? d : s; const unsigned char *usr = wr ? s : d;
	__CPROVER_assert(__CPROVER_same_object(ring, vf_r->buf) && __CPROVER_same_object(usr, vf_usr), "STUB copy between the ring and the caller's buffer");
	size_t ro = __CPROVER_POINTER_OFFSET(ring), uo = __CPROVER_POINTER_OFFSET(usr);
	__CPROVER_assert(ro <= vf_r->size && n <= vf_r->size - ro, "ENSURES copy stays inside the ring storage");
	__CPROVER_assert(uo <= vf_usrn && n <= vf_usrn - uo, "ENSURES copy stays inside the caller's buffer");
	if (wr) {
#ifdef VF_ONWRITE
		VF_ONWRITE((uint32_t)ro, (uint32_t)n);
#endif
		if (vf_oi >= ro && vf_oi - ro < n) vf_gi = uo + (vf_oi - ro) == vf_k ? vf_kv : nondet_u8();
		if (vf_oj >= ro && vf_oj - ro < n) vf_gj = uo + (vf_oj - ro) == vf_k ? vf_kv : nondet_u8();
		if (vf_oi == vf_oj) vf_gi = vf_gj;
	} else if (vf_k >= uo && vf_k - uo < n) {
		size_t o = ro + (vf_k - uo);
		vf_kv = o == vf_oi ? vf_gi : nondet_u8();
	}
	return d;
}
#define SLOTI() vf_gi
#define SLOTJ() vf_gj
#define SETI(c) (vf_gi = (c))
#define USRK() vf_kv
#else
static unsigned char *vf_pi, *vf_pj, *vf_usr; static size_t vf_k;
#define SLOTI() (*vf_pi)
#define SLOTJ() (*vf_pj)
#define SETI(c) (*vf_pi = (c))
#define USRK() (vf_usr[vf_k])
#endif
