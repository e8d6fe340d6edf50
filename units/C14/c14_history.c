/*VF
kind: history
functions: auto_cover_buf_create auto_cover_buf_write auto_cover_buf_read auto_cover_buf_available_read auto_cover_buf_destroy
fuzz: 20
*/
#include "vf.h"
#include "nolog.h"
#include "src/ring/ringbuffer.c"
#include "src/ring/autocover_buffer.c"
static int vf_acq, vf_rel, vf_arg;
static int acq(void *a) { ENSURES(a == &vf_arg && vf_acq == vf_rel, "lock taken once"); vf_acq++; return 0; }
static int rel(void *a) { ENSURES(a == &vf_arg && vf_acq == vf_rel + 1, "lock released when held"); vf_rel++; return 0; }
void vf_harness(void)
{
	auto_cover_buf_lock_t lk = { &vf_arg, acq, rel }; vf_acq = vf_rel = 0;
	auto_cover_buf_handle h = auto_cover_buf_create(RANGE(4, 40), BOOL() ? &lk : NULL);
	ENSURES(h, "create");
	uint32_t cap = RingBuffer_real_capacity(h->ring), lo = 0, hi = 0; static unsigned char m[16384], b[256];
	if (BOOL()) { uint32_t s = 0xffffffe0u & ~(cap - 1); h->ring->in = h->ring->out = s; }  /* long after the start, near 2^32 */
	uint32_t base = h->ring->out, ops = SZ(0, 80);
	for (uint32_t k = 0; k < ops; k++) {
		uint32_t n = RANGE(1, cap);
		if (BOOL()) {
			for (uint32_t i = 0; i < n; i++) b[i] = m[hi + i] = (unsigned char)(k * 71 + i * 3);
			ENSURES(auto_cover_buf_write(h, b, n) == (int)n, "write of at most the capacity succeeds");
			hi += n; if (hi - lo > cap) lo = hi - cap;
		} else {
			uint32_t p = lo + (uint32_t)RANGE(0, cap - 1), r; int a, g;
			if (U8() % 8 == 0) n = 200;
			a = auto_cover_buf_available_read(h, base + p);
			memset(b, 0xEE, sizeof b);
			g = auto_cover_buf_read(h, base + p, b, n);
			if (p < hi) {
				r = hi - p;
				ENSURES(a == (int)r, "available from a stored position");
				ENSURES(g == (n <= r ? (int)n : AUTO_COVER_BUF_ERR_DATA_NOT_ENOUGH), "all or not enough");
				if (g > 0) { ENSURES(memcmp(b, m + p, n) == 0, "bytes at the position"); lo = p + n; }
			} else if (p > hi) ENSURES(a == AUTO_COVER_BUF_ERR_DATA_COVERED && g == a, "covered");
			else ENSURES(g < 0 && a <= 0, "nothing at the write position");
			if (g < 0) ENSURES(b[0] == 0xEE, "nothing written");
		}
		ENSURES(vf_acq == vf_rel, "lock balanced");
		ENSURES(RingBuffer_available_read(h->ring) == hi - lo, "holds the newest bytes");
	}
	auto_cover_buf_destroy(&h);
	ENSURES(!h, "destroy clears");
}
