/*VF
kind: full
functions: fixed_msg_queue_push fixed_msg_queue_pop fixed_msg_queue_clear fixed_msg_queue_available_pop_amount fixed_msg_queue_available_push_amount fixed_msg_queue_is_empty fixed_msg_queue_is_full
divcalls: src/ring/fixed_msg_queue.c
unwind: 9
bound: 8
bunwind: 20
assumes: RingBuffer_* by their contracts (discharged in C11) | the quotient by its contract (a function, 0 exactly when a < b)
*/
#define VF_RINGMAXE 31
#include "absring.inc"
#include "src/ring/fixed_msg_queue.c"
void vf_harness(void)
{
	struct _fixed_msg_queue_s *q = vf_alloc(sizeof *q); q->ring_buf_p = vf_ring();
	uint32_t s = SZ(1, 0x80000000U), len = LEN0; int op = (int)RANGE(0, 4);
	q->one_msg_byte_size = s;
	REQUIRES(s <= vf_cap);
#ifndef VF_UNB
	REQUIRES(len % s == 0);
#endif
	unsigned char *m = BUF(s);
	uint32_t i = (uint32_t)RANGE(0, vf_cap - 1), j = (uint32_t)RANGE(0, s - 1);
	unsigned char vi = vf_watch(vf_out0 + i), v = vf_watch(vf_out0 + j), m0 = m[j]; (void)vf_watch(vf_in0 + j);
	uint32_t pu = vf_div(vf_cap - len, s), cnt = vf_div(len, s);
	bool room = vf_cap - len >= s, nul = op == 2;
	if (op == 4) {
		ENSURES(fixed_msg_queue_available_pop_amount(q) == cnt, "amount to pop is the number of stored messages");
		ENSURES(fixed_msg_queue_available_push_amount(q) == pu, "amount to push is the number of messages that still fit");
		ENSURES(fixed_msg_queue_is_empty(q) == (len < s) && fixed_msg_queue_is_full(q) == !room, "empty and full agree with the amounts");
		REACH("amounts");
	} else if (op == 0) {
		bool r = fixed_msg_queue_push(q, m);
		ENSURES(r == room, "accepted exactly when one more whole message fits");
		ENSURES(q->ring_buf_p->out == vf_out0 && q->ring_buf_p->in == vf_in0 + (room ? s : 0), "stores a whole message or nothing");
		if (i < len) ENSURES(vf_now(vf_out0 + i) == vi, "stored messages are not disturbed");
		if (r) ENSURES(vf_now(vf_in0 + j) == m[j], "the message is stored byte-exact at the end");
		REACH("push");
	} else if (op == 1 || op == 2) {
		bool r = fixed_msg_queue_pop(q, nul ? NULL : m);
		ENSURES(r == (len >= s && !nul), "delivered exactly when there is a message");
		ENSURES(q->ring_buf_p->in == vf_in0 && q->ring_buf_p->out == vf_out0 + (r ? s : 0), "takes a whole message or nothing");
		ENSURES(m[j] == (r ? v : m0), "the oldest message is delivered byte-exact");
		REACH("pop");
	} else {
		fixed_msg_queue_clear(q);
		ENSURES(RingBuffer_available_read(q->ring_buf_p) == 0 && RingBuffer_available_write(q->ring_buf_p) == vf_cap, "clear empties");
	}
}
