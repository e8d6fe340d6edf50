/*VF
kind: full
functions: ring_buf_read ring_buf_peek ring_buf_discard internal_ring_buf_read
unwind: 4
bound: 6
modcalls: src/ring/ring_buf.c
bunwind: 20
assumes: memcpy by its contract (exact at the watched offsets) | remainder operator by its contract (exact for a < 2b) | ring size at most 16384 in the deductive run
*/
#include "rbuf.inc"
void vf_harness(void)
{
	struct __ring_buf_t *r = vf_ring();
	size_t n = SZ(0, SIZE_MAX); int op = (int)RANGE(0, 2);
	unsigned char *dst = BUF(n < vf_N ? n + 1 : vf_N);
	size_t i = RANGE(0, (n < vf_N ? n + 1 : vf_N) - 1), k = RANGE(0, vf_N - 1), want = n <= LEN0 ? n : 0;
	unsigned char vi = i < vf_N ? vf_view(i) : 0, sk = (unsigned char)r->pbuf[k], di = dst[i];
#ifdef VF_UNB
	vf_wo[0] = i;
#endif
	size_t g = op == 0 ? ring_buf_read(r, dst, n) : op == 1 ? ring_buf_peek(r, dst, n) : ring_buf_discard(r, n);
	ENSURES(g == want, "takes everything asked for or nothing");
	ENSURES(r->offset_write == vf_wr0 && r->offset_read == (op == 1 ? vf_rd0 : vf_wrapped(vf_rd0 + want)), "reader position advances by the taken length; peek moves nothing");
	if (op < 2 && i < want) ENSURES(dst[i] == vi, "returns the oldest bytes in order");
	if (op == 2 || !want) ENSURES(dst[i] == di, "nothing else is written to the caller's buffer");
	ENSURES((unsigned char)r->pbuf[k] == sk, "reading does not change the storage");
	vf_ring_ok();
	REACH("read");
}
