/*VF
kind: full
functions: auto_cover_buf_write
unwind: 9
bound: 8
bunwind: 20
assumes: RingBuffer_* by their contracts (discharged in C11) | capacity at most 2^30
*/
#include "ac.inc"
void vf_harness(void)
{
	auto_cover_buf_handle h = vf_ac();
	uint32_t n = SZ(1, (uint32_t)1 << 30);
	REQUIRES(n <= vf_cap);
	unsigned char *src = BUF(n);
	uint32_t i = (uint32_t)RANGE(0, vf_cap - 1), j = (uint32_t)RANGE(0, n - 1), len = LEN0;
	uint32_t drop = n > vf_cap - len ? n - (vf_cap - len) : 0;
	unsigned char vi = vf_watch(vf_out0 + i); (void)vf_watch(vf_in0 + j);
	int r = auto_cover_buf_write(h, src, n);
	ENSURES(r == (int)n, "a write of at most the capacity succeeds completely");
	ENSURES(h->ring->out == vf_out0 + drop, "evicts only as many of the oldest bytes as needed");
	ENSURES(h->ring->in == vf_in0 + n, "the written bytes are the newest");
	if (i < len && i >= drop) ENSURES(vf_now(vf_out0 + i) == vi, "remaining bytes keep their value and position");
	ENSURES(vf_now(vf_in0 + j) == src[j], "written bytes are stored in order at the end");
	ENSURES(vf_acq == vf_rel && vf_acq == (h->buf_lock.acquire != 0), "the lock is taken and released once");
	REACH("write");
}
