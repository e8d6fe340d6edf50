/*VF
kind: full
functions: RingBuffer_read RingBuffer_peek RingBuffer_discard RingBuffer_read_internal
unwind: 4
bound: 8
bunwind: 20
assumes: memcpy by its contract (exact at the watched offsets)
*/
#include "ring.inc"
void vf_harness(void)
{
	struct __ring_buffer_t *r = vf_ring();
	uint32_t cap = r->size, n = SZ(0, 0xffffffffU), op = RANGE(0, 2);
	bool nul = BOOL();
	unsigned char *dst = BUF(n ? n : 1);
	uint32_t i = RANGE(0, cap - 1), want = LEN0 < n ? LEN0 : n;
	unsigned char vi = vf_view(i), di = i < n ? dst[i] : 0;
#ifdef VF_UNB
	vf_wo[0] = vf_off(vf_out0 + i); vf_wo[1] = i;
#endif
	uint32_t got = op == 0 ? RingBuffer_read(r, nul ? NULL : dst, n) : op == 1 ? RingBuffer_peek(r, nul ? NULL : dst, n) : RingBuffer_discard(r, n);
	if (op == 0 && nul) want = 0;
	ENSURES(got == want, "transfers what is available up to the request and reports it");
	ENSURES(r->in == vf_in0 && r->size == cap, "the writer's position is not touched");
	ENSURES(r->out == (op == 1 ? vf_out0 : vf_out0 + want), "read and discard consume, peek does not");
	ENSURES(vf_view(i) == vi, "the storage is not modified");
	if (op < 2 && !nul) {
		if (i < want) ENSURES(dst[i] == vi, "oldest bytes first, in order");
		else if (i < n) ENSURES(dst[i] == di, "nothing beyond the reported count is written");
	}
	vf_ring_ok();
	REACH("read");
}
