/*VF
kind: full
functions: ring_buf_write ring_buf_available_read ring_buf_available_write
unwind: 4
bound: 6
modcalls: src/ring/ring_buf.c
bunwind: 20
assumes: memcpy by its contract (exact at the watched offsets) | remainder operator by its contract (exact for a < 2b) | ring size at most 16384 in the deductive run
*/
#include "rbuf.inc"
void vf_harness(void)
{
	struct __ring_buf_t *r = vf_ring();
	size_t n = SZ(0, SIZE_MAX), cap = vf_N - 1;
	unsigned char *src = BUF(n < vf_N ? n + 1 : vf_N);
	size_t i = RANGE(0, cap), j = RANGE(0, n ? n - 1 : 0), want = n <= cap - LEN0 ? n : 0;
#ifdef VF_UNB
	vf_wo[0] = vf_wrapped(vf_rd0 + i); vf_wo[1] = vf_wrapped(vf_wr0 + (j < vf_N ? j : 0));
#endif
	unsigned char vi = vf_view(i);
	size_t w = ring_buf_write(r, src, n);
	ENSURES(w == want, "stores everything or nothing");
	ENSURES(r->offset_read == vf_rd0 && r->offset_write == vf_wrapped(vf_wr0 + want), "writer position advances by the stored length only");
	if (i < LEN0) ENSURES(vf_view(i) == vi, "unread bytes keep their value and order");
	if (j < want) ENSURES(vf_view(LEN0 + j) == src[j], "stored bytes follow the unread ones in order");
	vf_ring_ok();
	REACH("write");
}
