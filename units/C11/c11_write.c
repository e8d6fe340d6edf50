/*VF
kind: full
functions: RingBuffer_write RingBuffer_available_read RingBuffer_available_write RingBuffer_is_empty RingBuffer_is_full RingBuffer_real_capacity RingBuffer_current_read_position RingBuffer_current_write_position
unwind: 4
bound: 8
bunwind: 20
assumes: memcpy by its contract (exact at the watched offsets)
*/
#include "ring.inc"
void vf_harness(void)
{
	struct __ring_buffer_t *r = vf_ring();
	uint32_t cap = r->size, n = SZ(0, 0xffffffffU);
	bool nul = BOOL();
	unsigned char *src = BUF(n ? n : 1);
	uint32_t i = RANGE(0, cap - 1), j = RANGE(0, n ? n - 1 : 0), want = cap - LEN0 < n ? cap - LEN0 : n;
	if (nul) want = 0;
#ifdef VF_UNB
	vf_wo[0] = vf_off(vf_out0 + i); vf_wo[1] = vf_off(vf_in0 + j);
#endif
	unsigned char vi = vf_view(i);
	vf_ring_ok();
	uint32_t w = RingBuffer_write(r, nul ? NULL : src, n);
	ENSURES(w == want, "stores the longest prefix that fits and reports its length");
	ENSURES(r->out == vf_out0 && r->in == vf_in0 + want && r->size == cap, "writer position advances by the stored length only");
	if (i < LEN0) ENSURES(vf_view(i) == vi, "unread bytes keep their value and order");
	if (j < want) ENSURES(vf_view(LEN0 + j) == src[j], "stored bytes follow the unread ones in order");
	vf_ring_ok();
	REACH("write");
}
