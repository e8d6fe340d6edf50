/*VF
kind: history
functions: RingBuffer_create RingBuffer_write RingBuffer_read RingBuffer_peek RingBuffer_discard RingBuffer_clear
fuzz: 20
*/
#include "vf.h"
#include "nolog.h"
#include "src/ring/ringbuffer.c"
void vf_harness(void)
{
	ring_buffer_handle h = RingBuffer_create(RANGE(4, 40));
	ENSURES(h, "create");
	uint32_t cap = RingBuffer_real_capacity(h), len = 0; static unsigned char m[64], b[128], c[128];
	uint32_t ops = SZ(0, 80);
	for (uint32_t k = 0; k < ops; k++) {
		uint32_t n = RANGE(0, 70), r, w; uint32_t op = RANGE(0, 5);
		for (uint32_t i = 0; i < n; i++) b[i] = (unsigned char)(k * 71 + i);
		memset(c, 0xEE, sizeof c);
		if (op <= 1) { w = cap - len < n ? cap - len : n; r = RingBuffer_write(h, b, n); ENSURES(r == w, "write count"); memcpy(m + len, b, w); len += w; }
		else if (op <= 4) {
			w = len < n ? len : n;
			r = op == 2 ? RingBuffer_read(h, c, n) : op == 3 ? RingBuffer_peek(h, c, n) : RingBuffer_discard(h, n);
			ENSURES(r == w, "read count");
			if (op < 4) { ENSURES(memcmp(c, m, w) == 0, "oldest bytes in order"); ENSURES(c[w] == 0xEE, "nothing written behind"); }
			if (op != 3) { memmove(m, m + w, len - w); len -= w; }
		} else if (U8() % 8 == 0) { RingBuffer_clear(h); len = 0; }
		ENSURES(RingBuffer_available_read(h) == len && RingBuffer_available_write(h) == cap - len, "amounts");
		ENSURES(RingBuffer_is_empty(h) == (len == 0) && RingBuffer_is_full(h) == (len == cap), "empty/full");
	}
	RingBuffer_destroy(&h);
}
