/*VF
kind: history
functions: fixed_msg_queue_create fixed_msg_queue_push fixed_msg_queue_pop fixed_msg_queue_clear
fuzz: 20
*/
#include "vf.h"
#include "nolog.h"
#include "src/ring/ringbuffer.c"
#include "src/ring/fixed_msg_queue.c"
void vf_harness(void)
{
	static unsigned char m[4096][40], b[64];
	uint32_t s = RANGE(1, 39), n = RANGE(1, 20), h = 0, t = 0, ops = SZ(0, 120);
	REQUIRES(s * n >= 64);
	fixed_msg_queue q = fixed_msg_queue_create(s, n);
	ENSURES(q, "create");
	uint32_t cap = fixed_msg_queue_available_push_amount(q), bytes = RingBuffer_real_capacity(q->ring_buf_p);
	ENSURES(cap <= n && cap == bytes / s, "capacity");
	if (cap) { if (BOOL()) q->ring_buf_p->in = q->ring_buf_p->out = U32(); }
	for (uint32_t k = 0; k < ops; k++) {
		uint32_t op = RANGE(0, 6);
		if (op < 3) {
			for (uint32_t i = 0; i < s; i++) m[t][i] = (unsigned char)(k * 37 + i);
			bool r = fixed_msg_queue_push(q, m[t]);
			ENSURES(r == (t - h < cap), "push accepted while there is room"); if (r) t++;
		} else if (op < 6) {
			memset(b, 0xEE, sizeof b);
			bool r = fixed_msg_queue_pop(q, b);
			ENSURES(r == (h < t), "pop");
			if (r) { ENSURES(memcmp(b, m[h], s) == 0 && b[s] == 0xEE, "oldest message"); h++; } else ENSURES(b[0] == 0xEE, "nothing");
		} else if (U8() % 8 == 0) { fixed_msg_queue_clear(q); h = t; }
		ENSURES(fixed_msg_queue_available_pop_amount(q) == t - h && fixed_msg_queue_available_push_amount(q) == cap - (t - h), "amounts");
		ENSURES(fixed_msg_queue_is_empty(q) == (t == h) && fixed_msg_queue_is_full(q) == (t - h == cap), "empty/full");
	}
	fixed_msg_queue_destroy(&q); ENSURES(!q, "destroy");
}
