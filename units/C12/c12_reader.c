/*VF
kind: full
steps: src/ring/ringbuffer.c
functions: RingBuffer_read RingBuffer_peek RingBuffer_discard RingBuffer_read_internal
unwind: 4
bound: 4
bunwind: 20
defs: -DVF_GHOST
cases: 1 2 3 4 5 6 7 8 9 10 11 12
tcases: 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24
solver: kissat
quietfail: 1
timeout: 400
assumes: memcpy by its contract (exact at the watched storage slots; the storage is not dereferenced directly) | interference happens between statements (vf_step inserted mechanically before every statement of ringbuffer.c); memory effects are seen in program order (sequential consistency)
*/
/* Reader against an arbitrary concurrent writer.  Rely: the writer only moves its position forward within the
   capacity and writes only bytes that are not readable at that moment.  Whatever it does, a read returns exactly the
   bytes that were stored, oldest first, and releases a byte only after it has been copied out. */
#include "ring.inc"
static bool vf_on; static uint32_t vf_i, vf_in; static unsigned char vf_vi;
static void guarantee(void)
{
	ENSURES(vf_r->in == vf_in, "the reader never writes the writer's position");
	ENSURES(vf_r->out - vf_out0 <= vf_in - vf_out0 && vf_in - vf_r->out <= vf_r->size, "the reader never moves past the writer");
}
void vf_step(void)
{
	if (!vf_on) return;
	guarantee();
	if (BOOL()) {
		unsigned char c = U8();
		if (vf_i >= vf_in - vf_out0) { SETI(c); vf_vi = c; }   /* not announced yet: the writer may be storing it */
		else if (vf_i < vf_r->out - vf_out0) SETI(c);           /* released: the writer may reuse the slot */
		vf_in += (uint32_t)RANGE(0, vf_r->size - (vf_in - vf_r->out)); vf_r->in = vf_in;
	}
}
void vf_harness(void)
{
	struct __ring_buffer_t *r = vf_ring();
	uint32_t cap = r->size, n = SZ(1, 0xffffffffU), op = RANGE(0, 2);
	unsigned char *dst = BUF(n);
	uint32_t i = vf_i = RANGE(0, n - 1);
	REQUIRES(i < cap);
	size_t oi = vf_off(vf_out0 + i);
	vf_usr = dst; vf_k = i;
#ifdef VF_UNB
	vf_oi = oi; vf_oj = oi; vf_usrn = n; vf_kv = U8(); vf_gi = vf_gj = U8();
#else
	vf_pi = (unsigned char *)r->buf + oi; vf_pj = vf_pi;
#endif
	vf_vi = SLOTI(); vf_in = vf_in0;
	vf_on = true;
	uint32_t got = op == 0 ? RingBuffer_read(r, dst, n) : op == 1 ? RingBuffer_peek(r, dst, n) : RingBuffer_discard(r, n);
	vf_on = false;
	guarantee();
	ENSURES(got <= n && got <= vf_in - vf_out0, "returns no more than what was announced");
	ENSURES(got == n || got >= LEN0, "returns at least what was announced before the call, up to the request");
	ENSURES(r->out == (op == 1 ? vf_out0 : vf_out0 + got), "releases exactly the returned bytes");
	if (op < 2 && i < got) { ENSURES(i < vf_in - vf_out0, "only announced bytes are returned"); ENSURES(USRK() == vf_vi, "byte i is the i-th oldest, completely written, and copied before its space is released"); }
	REACH("reader");
}
