/*VF
kind: full
functions: msg_queue_pop msg_queue_next_msg_size
unwind: 9
bound: 8
bunwind: 20
assumes: RingBuffer_* by their contracts (discharged in C11) | the queue holds whole messages behind their sizes, except a last one still being written
*/
#include "mq.inc"
void vf_harness(void)
{
	struct __msg_queue *q = vf_alloc(sizeof *q); q->ring_buf_p = vf_ring();
	uint32_t s = SZ(1, 0x7fffffffU), bs = SZ(0, 0xffffffffU), sz = bs, len = LEN0; int nul = (int)RANGE(0, 4);
	REQUIRES(vf_cap >= 8 && s <= vf_cap - 4 && (len == 0 || len >= 4));
	unsigned char *d = BUF(bs ? bs : 1);
	uint32_t j = (uint32_t)RANGE(0, s - 1);
	bool whole = len >= 4 + s;
	if (len) { vf_watch4(vf_out0); vf_put4(vf_out0, s); }
	unsigned char v = vf_watch(vf_out0 + 4 + j), d0 = j < bs ? d[j] : 0;
	uint32_t ns = msg_queue_next_msg_size(q);
	ENSURES(ns == s || (!whole && ns == 0), "the next size is the size of the oldest message, 0 when there is none");
	if (len == 0) ENSURES(ns == 0, "no next message in an empty queue");
	msg_q_code_e c = msg_queue_pop(nul == 1 ? NULL : q, nul == 2 ? NULL : d, nul == 3 ? NULL : &sz);
	bool bad = nul >= 1 && nul <= 3, ok = !bad && whole && s <= bs;
	ENSURES((c == MSG_Q_CODE_SUCCESS) == ok, "delivers exactly when a whole message is there and fits the buffer");
	if (!bad && !whole) ENSURES(c == MSG_Q_CODE_EMPTY || (len && c == MSG_Q_CODE_AGAIN), "empty, or not yet complete");
	if (!bad && whole && s > bs) ENSURES(c == MSG_Q_CODE_BUF_NOT_ENOUGH && sz == s, "too small a buffer is reported with the needed size");
	ENSURES(q->ring_buf_p->in == vf_in0 && q->ring_buf_p->out == (ok ? vf_out0 + 4 + s : vf_out0), "consumes one whole message or nothing");
	if (ok) { ENSURES(sz == s && sz == ns, "the reported size is the message size, as peeked"); ENSURES(d[j] == v, "the message is delivered byte-exact"); }
	else if (j < bs) ENSURES(d[j] == d0, "nothing is delivered otherwise");
	REACH("pop");
}
