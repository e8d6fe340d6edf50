/*VF
kind: history
functions: msg_queue_create msg_queue_push msg_queue_pop msg_queue_next_msg_size msg_queue_clear msg_queue_destroy
fuzz: 20
*/
#include "vf.h"
#include "nolog.h"
#include "src/ring/ringbuffer.c"
#include "src/ring/msg_queue.c"
void vf_harness(void)
{
	static unsigned char m[4096][40], b[128]; static uint32_t ms[4096];
	uint32_t sz = RANGE(50, 200), h = 0, t = 0, used = 0, ops = SZ(0, 120);
	msg_queue q = msg_queue_create(sz);
	ENSURES(q, "create");
	uint32_t cap = msg_queue_available_push_bytes(q);
	if (BOOL()) q->ring_buf_p->in = q->ring_buf_p->out = U32();
	for (uint32_t k = 0; k < ops; k++) {
		uint32_t op = RANGE(0, 8), n = RANGE(0, 39);
		if (op < 4) {
			for (uint32_t i = 0; i < n; i++) m[t][i] = (unsigned char)(k * 37 + i);
			msg_q_code_e c = msg_queue_push(q, m[t], n);
			if (n == 0) ENSURES(c != MSG_Q_CODE_SUCCESS, "empty message refused");
			else if (n + 4 <= cap - used) { ENSURES(c == MSG_Q_CODE_SUCCESS, "fits"); ms[t++] = n; used += n + 4; }
			else ENSURES(c == MSG_Q_CODE_FULL, "full");
		} else if (op < 8) {
			uint32_t s = n, ns = msg_queue_next_msg_size(q);
			memset(b, 0xEE, sizeof b);
			msg_q_code_e c = msg_queue_pop(q, b, &s);
			ENSURES(ns == (h < t ? ms[h] : 0), "next size");
			if (h == t) ENSURES(c == MSG_Q_CODE_EMPTY, "empty");
			else if (ms[h] > n) ENSURES(c == MSG_Q_CODE_BUF_NOT_ENOUGH && s == ms[h] && b[0] == 0xEE, "too small");
			else { ENSURES(c == MSG_Q_CODE_SUCCESS && s == ms[h] && memcmp(b, m[h], s) == 0 && b[s] == 0xEE, "oldest message byte-exact"); used -= ms[h++] + 4; }
		} else if (U8() % 4 == 0) {
			uint32_t big = BOOL() ? U32() : 0u - RANGE(1, 64);   /* no message this large can fit: nothing of it may be read or stored */
			if (big > cap) ENSURES(msg_queue_push(q, m[0], big) == MSG_Q_CODE_FULL, "a message larger than the queue is refused");
		} else if (U8() % 8 == 0) { msg_queue_clear(q); h = t; used = 0; }
		ENSURES(msg_queue_available_pop_bytes(q) == used && msg_queue_available_push_bytes(q) == cap - used, "amounts");
	}
	msg_queue_destroy(&q); ENSURES(!q, "destroy"); msg_queue_destroy(&q);
}
