/*VF
kind: full
steps: src/ring/ringbuffer.c
functions: RingBuffer_write
unwind: 4
bound: 4
bunwind: 20
defs: -DVF_GHOST
cases: 1 2 3 4 5 6 7 8 9 10 11 12
tcases: 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24
solver: kissat
quietfail: 1
timeout: 400
assumes: memcpy by its contract (exact at the watched storage slots; the storage is not dereferenced directly) | interference happens between statements (vf_step inserted mechanically before every statement of ringbuffer.c); memory effects are seen in program order (sequential consistency)
*/
/* Writer against an arbitrary concurrent reader.  Rely: the reader only moves its position forward, up to the
   writer's position as it is at that moment.  Guarantee, checked at every interference point and at the end:
   announced bytes are in place, unread bytes are never overwritten, the reader's position is never written. */
#ifdef VF_UNB
#define VF_ONWRITE(ro, n) onwrite(ro, n)
static void onwrite(unsigned ro, unsigned n);
#endif
#include "ring.inc"
static bool vf_on; static uint32_t vf_i, vf_j, vf_n, vf_out; static unsigned char vf_vi, vf_sj;
#ifdef VF_UNB
static void onwrite(uint32_t ro, uint32_t n)
{
	if (vf_i < LEN0 && vf_i >= vf_out - vf_out0) ENSURES(!(vf_oi >= ro && vf_oi - ro < n), "a byte that has not been read is never overwritten");
}
#endif
static void guarantee(void)
{
	ENSURES(vf_r->out == vf_out, "the writer never writes the reader's position");
#ifndef VF_UNB
	if (vf_i < LEN0 && vf_i >= vf_out - vf_out0) ENSURES(SLOTI() == vf_vi, "a byte that has not been read is never overwritten");
#endif
	if (vf_r->in == vf_in0) return;
	uint32_t ann = vf_r->in - vf_in0;
	ENSURES(ann <= vf_n && vf_r->in - vf_out <= vf_r->size, "the announced amount is at most what was asked for and fits");
	if (vf_j < ann) ENSURES(SLOTJ() == vf_sj, "a byte is in place before it is announced as readable");
}
void vf_step(void)
{
	if (!vf_on) return;
	guarantee();
	if (BOOL()) {
		uint32_t adv = (uint32_t)RANGE(0, vf_r->in - vf_out);
		vf_out += adv; vf_r->out = vf_out;      /* the reader consumes */
	}
}
void vf_harness(void)
{
	struct __ring_buffer_t *r = vf_ring();
	uint32_t cap = r->size, n = vf_n = SZ(1, 0xffffffffU);
	unsigned char *src = BUF(n);
	uint32_t i = vf_i = RANGE(0, cap - 1), j = vf_j = RANGE(0, n - 1);
	size_t oi = vf_off(vf_out0 + i), oj = vf_off(vf_in0 + j);
	vf_usr = src; vf_k = j;
#ifdef VF_UNB
	vf_oi = oi; vf_oj = oj; vf_usrn = n; vf_kv = U8(); vf_gi = U8(); vf_gj = oi == oj ? vf_gi : U8();
#else
	vf_pi = (unsigned char *)r->buf + oi; vf_pj = (unsigned char *)r->buf + oj;
	vf_vi = SLOTI();
#endif
	vf_sj = USRK(); vf_out = vf_out0;
	vf_on = true;
	uint32_t w = RingBuffer_write(r, src, n);
	vf_on = false;
	guarantee();
	ENSURES(w == r->in - vf_in0, "the returned count is the announced amount");
	ENSURES(w == n || w >= cap - LEN0, "everything that fitted at the start is stored");
	REACH("writer");
}
