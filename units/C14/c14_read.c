/*VF
kind: full
functions: auto_cover_buf_read auto_cover_buf_available_read auto_cover_buf_internal_read
unwind: 9
bound: 8
bunwind: 20
assumes: RingBuffer_* by their contracts (discharged in C11) | capacity at most 2^30
*/
#include "ac.inc"
void vf_harness(void)
{
	auto_cover_buf_handle h = vf_ac();
	uint32_t pos = U32(), req = SZ(1, 0xffffffffU), len = LEN0;
	bool only = BOOL();
	unsigned char *dst = BUF(req);
	uint32_t idx = (pos - vf_out0) & (vf_cap - 1);           /* distance of the asked position from the oldest byte */
	uint32_t j = (uint32_t)RANGE(0, req - 1), p = vf_out0 + idx + j;
	unsigned char v = vf_watch(p), d0 = dst[j];
	bool stored = idx < len, head = idx == len;
	int r = only ? auto_cover_buf_available_read(h, pos) : auto_cover_buf_read(h, pos, dst, req);
	uint32_t in1 = h->ring->in, out1 = h->ring->out;
	ENSURES(in1 == vf_in0 && vf_acq == vf_rel && vf_acq == (h->buf_lock.acquire != 0), "the writer's position stays, the lock is taken and released once");
	if (!stored && !head) ENSURES(r == AUTO_COVER_BUF_ERR_DATA_COVERED, "a position that is not stored is reported as covered");
	if (head) ENSURES(r == AUTO_COVER_BUF_ERR_DATA_COVERED || r == (only ? 0 : AUTO_COVER_BUF_ERR_DATA_NOT_ENOUGH), "nothing to read at the write position");
	if (stored && only) ENSURES(r == (int)(len - idx), "available is what is stored from the position on");
	if (stored && !only) ENSURES(r == (req <= len - idx ? (int)req : AUTO_COVER_BUF_ERR_DATA_NOT_ENOUGH), "reads everything asked for or reports not enough");
	if (!only && r > 0) {
		ENSURES(out1 == vf_out0 + idx + req, "consumes what precedes the position and what is returned, nothing else");
		ENSURES(dst[j] == v, "returns the bytes stored at the position, in order");
	} else {
		ENSURES(out1 == vf_out0, "consumes nothing otherwise");
		ENSURES(dst[j] == d0, "writes nothing to the caller's buffer otherwise");
	}
	REACH("read");
}
