/*VF
kind: loopinv
src: src/ring/msg_queue_handler.c
functions: thread_worker_handle_msg pri_roundup_power2 pri_notify_status_changed
unwind: 3
unwindset: pri_roundup_power2.0:66
nobmc: 1
san: nonat
assumes: msg_queue_pop by its contract (discharged in C15) | portable_sem_wait/post by the POSIX semaphore contract | termination of the worker loop is not claimed
*/
#define VF_INV_thread_worker_handle_msg_1 (vf_step_ok((int)last_status, poped_msg_buf, cur_msg_buf_size))
#define VF_HAV_thread_worker_handle_msg_1 poped_msg_buf = vf_newbuf(&cur_msg_buf_size), vf_newstep(), last_status = vf_served ? (BOOL() ? MSG_Q_CODE_SUCCESS : MSG_Q_CODE_EMPTY) : BOOL() ? MSG_Q_CODE_BUF_NOT_ENOUGH : MSG_Q_CODE_AGAIN
#define VF_DEC_thread_worker_handle_msg_1 (vf_fuel--)
static unsigned long long vf_fuel = 1000; static _Bool vf_served; static _Bool vf_step_ok(int st, void *b, unsigned long n); static char *vf_newbuf(unsigned long *n); static void vf_newstep(void);
#include "vf.h"
#include "nolog.h"
#include "common_macro.h"
#include "ring/msg_queue_handler.h"
#include "ring/msg_queue.h"
#include "thread/portable_thread.h"
#include <malloc.h>
static void *vf_m(size_t n); static void vf_fr(void *p); static int st_usleep(unsigned n) { return 0; }
#define malloc vf_m
#define free vf_fr
#undef usleep
#define usleep st_usleep
#include "src/ring/msg_queue_handler.c"
#undef malloc
#undef free
static struct _msg_queue_handler_s *h; static char *vf_b; static size_t vf_bn; static int vf_live, vf_pops, vf_succ, vf_cbs, vf_ready, vf_stop, vf_exitseen; static _Bool vf_oom, vf_stopped; static uint32_t vf_need, vf_off; static char vf_byte; static int ctx;
static void *vf_m(size_t n) { if (BOOL()) return 0; ENSURES(!vf_live, "one receive buffer at a time"); vf_live = 1; vf_bn = n; return vf_b = vf_alloc(n); }
static void vf_fr(void *p) { ENSURES(vf_live && p == vf_b, "releases its receive buffer once"); vf_live = 0; (free)(p); }
static char *vf_newbuf(size_t *n) { *n = vf_bn = RANGE(16, (uint64_t)1 << 32); vf_live = 1; return vf_b = vf_alloc(vf_bn); }
static void vf_newstep(void) { vf_pops = vf_succ = vf_cbs = 0; vf_served = BOOL(); h->flag2exit = BOOL(); vf_exitseen = 0; }
static _Bool vf_step_ok(int st, void *b, size_t n)
{
	ENSURES(vf_cbs == vf_succ && vf_succ <= 1, "each message received is handed to the callback exactly once");
	return vf_live && b == vf_b && n == vf_bn && n >= 16 && n <= (uint64_t)1 << 32 && !vf_stopped && vf_served == (st == MSG_Q_CODE_SUCCESS || st == MSG_Q_CODE_EMPTY);
}
int portable_sem_wait(portable_sem_t *s)
{
	ENSURES(s == &h->semaphore, "waits on its own semaphore");
	ENSURES(vf_served, "a wake-up is used up only for a message: no wait while a message is known to be pending");
	vf_served = 0; h->flag2exit = BOOL(); return 0;
}
int portable_sem_post(portable_sem_t *s) { return 0; } int portable_sem_init(portable_sem_t *s, int p, unsigned v) { return 0; } int portable_sem_destroy(portable_sem_t *s) { return 0; }
int portable_thread_create(portable_thread_t *t, const portable_thread_attr_t *a, void *(*f)(void *), void *x) { return 0; } int portable_thread_join(portable_thread_t t, void **r) { return 0; }
msg_queue msg_queue_create(uint32_t n) { return 0; } void msg_queue_destroy(msg_queue *q) { } msg_q_code_e msg_queue_push(msg_queue q, const void *b, uint32_t n) { return 0; }
uint32_t msg_queue_available_push_bytes(msg_queue q) { return 0; } uint32_t msg_queue_available_pop_bytes(msg_queue q) { return 0; }
static uint32_t vf_len; static queue_msg_t *vf_mp;
msg_q_code_e msg_queue_pop(msg_queue q, void *b, uint32_t *n)
{
	ENSURES(q == h->msg_queue_p && !vf_stopped, "takes from its own queue, nothing after the callback asked to stop");
	ENSURES(!h->flag2exit, "takes nothing after the handler was told to exit");
	ENSURES(vf_live && b == vf_b && *n <= vf_bn, "the receive buffer has the size it claims"); vf_pops++;
	uint8_t k = U8() % 4;
	if (k == 0) { vf_served = 1; return MSG_Q_CODE_EMPTY; }
	if (k == 1) { vf_served = 0; return MSG_Q_CODE_AGAIN; }
	uint32_t len = (uint32_t)RANGE(16, ((uint64_t)1 << 31) - 4);
	if (len > *n) { *n = len; vf_need = len; vf_served = 0; return MSG_Q_CODE_BUF_NOT_ENOUGH; }
	*n = vf_len = len; if (vf_off < len) ((char *)b)[vf_off] = vf_byte; vf_succ++; vf_served = 1; return MSG_Q_CODE_SUCCESS;
}
static int handle(queue_msg_t *m, void *u)
{
	ENSURES(u == &ctx && (char *)m == vf_b && vf_succ == 1 && vf_cbs == 0 && !vf_stopped, "the callback gets the message just taken, once, with the user's data");
	if (vf_off < vf_len) ENSURES(((char *)m)[vf_off] == vf_byte, "the message is handed over unchanged");
	vf_cbs++; if (BOOL()) { vf_stopped = 1; return 1; } return 0;
}
static void status(msg_q_handler_status_e s, void *u) { ENSURES(u == &ctx, "user data"); if (s == MSG_Q_HANDLER_STATUS_READY_TO_GO) vf_ready++; else vf_stop++; }
void vf_harness(void)
{
	h = vf_alloc(sizeof *h); h->param.user_data = &ctx; h->param.fn_handle_msg = handle; h->param.fn_on_status_changed = BOOL() ? status : NULL; h->flag2exit = BOOL();
	vf_live = vf_pops = vf_succ = vf_cbs = vf_ready = vf_stop = vf_exitseen = 0; vf_stopped = 0; vf_served = 1; vf_off = U32(); vf_byte = (char)U8(); bool st = h->param.fn_on_status_changed != NULL;
	thread_worker_handle_msg(h);
	ENSURES(h->flag2exit, "a worker that ends marks the handler as stopped, so nothing is accepted any more");
	ENSURES(!vf_live, "the receive buffer is released");
	ENSURES(vf_cbs == vf_succ, "the last message received was handed over");
	if (st) ENSURES(vf_ready == 1 && vf_stop == 1, "start and stop are announced once");
	REACH("ends"); if (vf_stopped) REACH("stopped by the callback");
}
