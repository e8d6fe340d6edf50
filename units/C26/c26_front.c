/*VF
kind: full
src: src/ring/msg_queue_handler.c
functions: msg_queue_handler_push msg_queue_handler_create msg_queue_handler_destroy msg_queue_handler_available_push_bytes msg_queue_handler_available_pop_bytes
unwind: 3
nobmc: 1
san: nonat
assumes: msg_queue_* by their contracts (discharged in C15) | portable_thread/portable_sem by the POSIX contracts | a pushed message has a non-negative object length below 2^31-16
*/
#include "vf.h"
#include "nolog.h"
#include "common_macro.h"
#include "ring/msg_queue_handler.h"
#include "ring/msg_queue.h"
#include "thread/portable_thread.h"
#include <malloc.h>
static void *vf_c(size_t a, size_t b); static void vf_fr(void *p);
#define calloc vf_c
#define free vf_fr
#undef usleep
#define usleep(n) 0
#include "src/ring/msg_queue_handler.c"
#undef calloc
#undef free
static struct _msg_queue_handler_s *h; static int vf_pushes, vf_posts, vf_hfree, vf_qlive, vf_semlive, vf_thr, vf_joined, vf_order; static bool oomh, oomq, oomt, full; static const void *vf_pb; static uint32_t vf_pn; static int vf_qobj; static int ctx;
static void *vf_c(size_t a, size_t b) { if (oomh) return 0; h = vf_alloc(sizeof *h); memset(h, 0, sizeof *h); vf_hfree = 0; return h; }
static void vf_fr(void *p) { ENSURES(p == h && !vf_hfree, "releases the handler once"); ENSURES(!vf_thr || vf_joined, "the handler stays until its thread has ended"); vf_hfree = 1; }
int portable_sem_wait(portable_sem_t *s) { return 0; }
int portable_sem_post(portable_sem_t *s) { ENSURES(s == &h->semaphore && !vf_hfree, "posts its own semaphore"); vf_posts++; vf_order = vf_pushes; return 0; }
int portable_sem_init(portable_sem_t *s, int p, unsigned v) { ENSURES(v == 0, "no wake-up pending at first"); vf_semlive = 1; *s = &ctx; return 0; }
int portable_sem_destroy(portable_sem_t *s) { ENSURES(vf_semlive && (!vf_thr || vf_joined), "semaphore destroyed once, after the thread"); vf_semlive = 0; *s = 0; return 0; }
int portable_thread_create(portable_thread_t *t, const portable_thread_attr_t *a, void *(*f)(void *), void *x)
{
	ENSURES(vf_qlive && vf_semlive && x == h && h->param.fn_handle_msg && !h->flag2exit, "the thread starts on a complete handler");
	if (oomt) { *t = 0; return -2; } *t = &ctx; vf_thr = 1; return 0;
}
int portable_thread_join(portable_thread_t t, void **r) { ENSURES(vf_thr && !vf_joined && h->flag2exit && vf_posts > 0, "joins the thread after telling it to exit and waking it"); vf_joined = 1; return 0; }
msg_queue msg_queue_create(uint32_t n) { if (oomq) return 0; vf_qlive = 1; return (msg_queue)&vf_qobj; }
void msg_queue_destroy(msg_queue *q) { ENSURES(vf_qlive && *q == (msg_queue)&vf_qobj && (!vf_thr || vf_joined), "queue destroyed once, after the thread"); vf_qlive = 0; *q = 0; }
msg_q_code_e msg_queue_push(msg_queue q, const void *b, uint32_t n) { ENSURES(q == (msg_queue)&vf_qobj && vf_posts == 0, "pushes before it posts"); vf_pushes++; vf_pb = b; vf_pn = n; return full ? MSG_Q_CODE_FULL : MSG_Q_CODE_SUCCESS; }
msg_q_code_e msg_queue_pop(msg_queue q, void *b, uint32_t *n) { return 0; }
uint32_t msg_queue_available_push_bytes(msg_queue q) { return 7; } uint32_t msg_queue_available_pop_bytes(msg_queue q) { return 9; }
static int handle(queue_msg_t *m, void *u) { return 0; }
void vf_harness(void)
{
	vf_pushes = vf_posts = vf_hfree = vf_qlive = vf_semlive = vf_thr = vf_joined = vf_order = 0; oomh = BOOL(); oomq = BOOL(); oomt = BOOL(); full = BOOL(); h = 0;
	msg_queue_handler_init_param_t pr = { &ctx, BOOL() ? handle : NULL, NULL }; uint32_t n = U32(); bool np = BOOL();
	msg_queue_handler x = msg_queue_handler_create(n, np ? NULL : &pr);
	if (!x) { ENSURES(n < 4 || np || !pr.fn_handle_msg || oomh || oomq || oomt, "created when possible"); ENSURES((!h || vf_hfree) && !vf_qlive && !vf_semlive && !vf_thr, "a failed creation leaves nothing behind"); REACH("not created"); return; }
	ENSURES(x == h && h->param.user_data == &ctx && h->param.fn_handle_msg == handle && !h->flag2exit && vf_thr && vf_qlive && vf_posts == 0, "a complete handler");
	ENSURES(msg_queue_handler_available_push_bytes(x) == 7 && msg_queue_handler_available_pop_bytes(x) == 9, "amounts are the queue's");
	queue_msg_t m; m.obj_len = (int)RANGE(0, 0x7fffffff - 16); h->flag2exit = BOOL(); bool ex = h->flag2exit;
	msg_q_code_e r = msg_queue_handler_push(BOOL() ? x : NULL, &m);
	if (r == MSG_Q_CODE_SUCCESS) { ENSURES(!ex && vf_pushes == 1 && !full && vf_posts == 1 && vf_order == 1, "an accepted message is queued first, then backed by one post"); ENSURES(vf_pb == &m && vf_pn == sizeof m + (uint32_t)m.obj_len, "the whole message is queued"); REACH("accepted"); }
	else { ENSURES(vf_posts == 0 && (vf_pushes == 0 || full), "a refused message leaves no wake-up"); ENSURES(vf_pushes ? r == MSG_Q_CODE_FULL : r == MSG_Q_CODE_NULL_HANDLE, "the refusal is reported"); if (ex) ENSURES(vf_pushes == 0, "nothing is accepted after the stop"); REACH("refused"); }
	msg_queue_handler y = x; msg_queue_handler_destroy(&x);
	ENSURES(!x && vf_hfree && !vf_qlive && !vf_semlive && vf_joined, "destroy ends the thread and releases everything");
	msg_queue_handler_destroy(&x); msg_queue_handler_destroy(NULL);
}
