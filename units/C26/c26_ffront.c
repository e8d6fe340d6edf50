/*VF
kind: full
src: src/ring/fixed_msg_queue_handler.c
functions: fixed_msg_queue_handler_push fixed_msg_queue_handler_create fixed_msg_queue_handler_destroy fixed_msg_queue_handler_clear fixed_msg_queue_handler_is_empty fixed_msg_queue_handler_is_full fixed_msg_queue_handler_available_push_amount fixed_msg_queue_handler_available_pop_amount
unwind: 3
nobmc: 1
san: nonat
assumes: fixed_msg_queue_* by their contracts (discharged in C12) | portable_thread/portable_sem by the POSIX contracts
*/
#include "vf.h"
#include "nolog.h"
#include "common_macro.h"
#include "ring/fixed_msg_queue_handler.h"
#include "ring/fixed_msg_queue.h"
#include "thread/portable_thread.h"
#include <malloc.h>
static void *vf_c(size_t a, size_t b); static void vf_fr(void *p);
#define calloc vf_c
#define free vf_fr
#include "src/ring/fixed_msg_queue_handler.c"
#undef calloc
#undef free
static struct _fixed_msg_queue_handler_s *h; static int vf_pushes, vf_posts, vf_hfree, vf_qlive, vf_semlive, vf_thr, vf_joined, vf_order, vf_qobj, ctx; static bool oomh, oomq, oomt, full; static uint32_t vf_off; static char vf_byte; static size_t vf_tok; static uint32_t vf_ps, vf_pp;
static void *vf_c(size_t a, size_t b) { if (oomh) return 0; h = vf_alloc(sizeof *h); memset(h, 0, sizeof *h); vf_hfree = 0; return h; }
static void vf_fr(void *p) { ENSURES(p == h && !vf_hfree, "releases the handler once"); ENSURES(!vf_thr || vf_joined, "the handler stays until its thread has ended"); vf_hfree = 1; }
int portable_sem_wait(portable_sem_t *s) { return 0; }
int portable_sem_post(portable_sem_t *s) { ENSURES(s == &h->semaphore && !vf_hfree, "posts its own semaphore"); vf_posts++; vf_order = vf_pushes; return 0; }
int portable_sem_init(portable_sem_t *s, int p, unsigned v) { ENSURES(v == 0, "no wake-up pending at first"); vf_semlive = 1; *s = &ctx; return 0; }
int portable_sem_destroy(portable_sem_t *s) { ENSURES(vf_semlive && (!vf_thr || vf_joined), "semaphore destroyed once, after the thread"); vf_semlive = 0; *s = 0; return 0; }
int portable_thread_create(portable_thread_t *t, const portable_thread_attr_t *a, void *(*f)(void *), void *x)
{
	ENSURES(vf_qlive && vf_semlive && x == h && h->param.fn_handle_msg && !h->flag2exit && f == thread_fun_handle_msg, "the thread starts on a complete handler");
	if (oomt) { *t = 0; return -2; } *t = &ctx; vf_thr = 1; return 0;
}
int portable_thread_join(portable_thread_t t, void **r) { ENSURES(vf_thr && !vf_joined && h->flag2exit && vf_posts > 0, "joins the thread after telling it to exit and waking it"); vf_joined = 1; return 0; }
fixed_msg_queue fixed_msg_queue_create(uint32_t m, uint32_t n) { ENSURES(m == sizeof(fixed_handler_msg_t), "slot size"); if (oomq) return 0; vf_qlive = 1; return (fixed_msg_queue)&vf_qobj; }
void fixed_msg_queue_destroy(fixed_msg_queue *q) { ENSURES(vf_qlive && *q == (fixed_msg_queue)&vf_qobj && (!vf_thr || vf_joined), "queue destroyed once, after the thread"); vf_qlive = 0; *q = 0; }
bool fixed_msg_queue_push(fixed_msg_queue q, const void *b)
{
	ENSURES(q == (fixed_msg_queue)&vf_qobj && vf_posts == 0, "pushes before it posts"); vf_pushes++;
	const fixed_handler_msg_t *m = b; vf_tok = m->token; if (vf_off < sizeof m->out_msg) ENSURES(((const char *)&m->out_msg)[vf_off] == vf_byte, "the whole message is queued"); return !full;
}
bool fixed_msg_queue_pop(fixed_msg_queue q, void *b) { return 0; }
uint32_t fixed_msg_queue_available_push_amount(const fixed_msg_queue q) { return vf_ps; } uint32_t fixed_msg_queue_available_pop_amount(const fixed_msg_queue q) { return vf_pp; }
static int handle(fixed_msg_t *m, void *u) { return 0; }
void vf_harness(void)
{
	vf_pushes = vf_posts = vf_hfree = vf_qlive = vf_semlive = vf_thr = vf_joined = vf_order = 0; oomh = BOOL(); oomq = BOOL(); oomt = BOOL(); full = BOOL(); h = 0; vf_off = U32(); vf_byte = (char)U8(); vf_ps = U32(); vf_pp = U32();
	fixed_msg_queue_handler_init_param_t pr = { &ctx, BOOL() ? handle : NULL, NULL }; uint32_t n = U32(); bool np = BOOL();
	fixed_msg_queue_handler x = fixed_msg_queue_handler_create(n, np ? NULL : &pr);
	if (!x) { ENSURES(n < 2 || np || !pr.fn_handle_msg || oomh || oomq || oomt, "created when possible"); ENSURES((!h || vf_hfree) && !vf_qlive && !vf_semlive && !vf_thr, "a failed creation leaves nothing behind"); REACH("not created"); return; }
	ENSURES(x == h && h->param.user_data == &ctx && h->param.fn_handle_msg == handle && !h->flag2exit && vf_thr && vf_qlive && vf_posts == 0, "a complete handler");
	ENSURES(h->token_counter >= h->min_valid_token, "nothing is cleared at first");
	ENSURES(fixed_msg_queue_handler_available_push_amount(x) == vf_ps && fixed_msg_queue_handler_available_pop_amount(x) == vf_pp && fixed_msg_queue_handler_is_empty(x) == (vf_pp == 0) && fixed_msg_queue_handler_is_full(x) == (vf_ps == 0), "amounts are the queue's");
	/* any reachable state: every queued message's token is below token_counter */
	h->token_counter = U64(); h->min_valid_token = U64(); REQUIRES(h->min_valid_token <= h->token_counter && h->token_counter < (uint64_t)-1);
	size_t tc = h->token_counter;
	if (BOOL()) { uint64_t anyq = U64(); REQUIRES(anyq < tc); fixed_msg_queue_handler_clear(x); ENSURES(h->token_counter == tc && h->min_valid_token == tc && anyq < h->min_valid_token, "clear invalidates every message queued so far and none queued later"); REACH("cleared"); }
	size_t mv = h->min_valid_token;
	fixed_msg_t *m = vf_alloc(sizeof *m); if (vf_off < sizeof *m) ((char *)m)[vf_off] = vf_byte;
	h->flag2exit = BOOL(); bool ex = h->flag2exit;
	msg_q_code_e r = fixed_msg_queue_handler_push(BOOL() ? x : NULL, m);
	if (r == MSG_Q_CODE_SUCCESS)
	{
		ENSURES(!ex && vf_pushes == 1 && !full && vf_posts == 1 && vf_order == 1, "an accepted message is queued first, then backed by one post");
		ENSURES(vf_tok >= tc && vf_tok >= mv && h->token_counter > vf_tok && h->min_valid_token == mv, "a new message is newer than all before it and is not cleared"); REACH("accepted");
	}
	else { ENSURES(vf_posts == 0 && (vf_pushes == 0 || full) && h->token_counter >= tc && h->min_valid_token == mv, "a refused message leaves no wake-up"); ENSURES(vf_pushes ? r == MSG_Q_CODE_FULL : r == MSG_Q_CODE_NULL_HANDLE, "the refusal is reported"); if (ex) ENSURES(vf_pushes == 0, "nothing is accepted after the stop"); REACH("refused"); }
	fixed_msg_queue_handler_destroy(&x);
	ENSURES(!x && vf_hfree && !vf_qlive && !vf_semlive && vf_joined, "destroy ends the thread and releases everything");
	fixed_msg_queue_handler_destroy(&x); fixed_msg_queue_handler_destroy(NULL);
}
