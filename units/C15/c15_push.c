/*VF
kind: full
functions: msg_queue_push msg_queue_available_push_bytes msg_queue_available_pop_bytes msg_queue_clear
unwind: 9
bound: 8
bunwind: 20
assumes: RingBuffer_* by their contracts (discharged in C11)
*/
#include "mq.inc"
void vf_harness(void)
{
	struct __msg_queue *q = vf_alloc(sizeof *q); q->ring_buf_p = vf_ring();
	uint32_t n = SZ(0, 0xffffffffU), free0 = vf_cap - LEN0; int nul = (int)RANGE(0, 3);
	unsigned char *m = BUF(n ? n : 1);
	uint32_t i = (uint32_t)RANGE(0, vf_cap - 1), j = (uint32_t)RANGE(0, n ? n - 1 : 0);
	vf_watch4(vf_in0);
	unsigned char vi = vf_watch(vf_out0 + i); (void)vf_watch(vf_in0 + 4 + j);
	ENSURES(msg_queue_available_push_bytes(q) == free0 && msg_queue_available_pop_bytes(q) == LEN0, "amounts");
	msg_q_code_e c = msg_queue_push(nul == 1 ? NULL : q, nul == 2 ? NULL : m, n);
	bool ok = nul != 1 && nul != 2 && n > 0 && free0 >= (uint64_t)n + 4;
	ENSURES((c == MSG_Q_CODE_SUCCESS) == ok, "succeeds exactly when the whole message and its header fit");
	if (nul != 1 && nul != 2 && n && !ok) ENSURES(c == MSG_Q_CODE_FULL, "reports full");
	ENSURES(q->ring_buf_p->out == vf_out0 && q->ring_buf_p->in == (ok ? vf_in0 + 4 + n : vf_in0), "stores the whole message or nothing");
	if (i < LEN0) ENSURES(vf_now(vf_out0 + i) == vi, "stored messages are not disturbed");
	if (ok) {
		ENSURES(vf_hdr(vf_in0) == n, "the size is stored in front of the message");
		ENSURES(vf_now(vf_in0 + 4 + j) == m[j], "the message is stored byte-exact");
	}
	if (nul == 3) { msg_queue_clear(q); ENSURES(msg_queue_available_pop_bytes(q) == 0 && msg_queue_available_push_bytes(q) == vf_cap && msg_queue_next_msg_size(q) == 0, "clear empties the queue"); }
	REACH("push");
}
