/*VF
kind: loopinv
src: src/ring/fixed_msg_queue_handler.c
functions: thread_fun_handle_msg pri_notify_status_changed
unwind: 3
nobmc: 1
san: nonat
assumes: fixed_msg_queue_pop by its contract (discharged in C12) | portable_sem_wait by the POSIX semaphore contract | termination of the worker loop is not claimed
*/
#define VF_INV_thread_fun_handle_msg_1 (vf_step_ok())
#define VF_HAV_thread_fun_handle_msg_1 vf_newstep()
#define VF_DEC_thread_fun_handle_msg_1 (vf_fuel--)
static unsigned long long vf_fuel = 1000; static _Bool vf_step_ok(void); static void vf_newstep(void);
#include "vf.h"
#include "nolog.h"
#include "common_macro.h"
#include "ring/fixed_msg_queue_handler.h"
#include "ring/fixed_msg_queue.h"
#include "thread/portable_thread.h"
#include <malloc.h>
#include "src/ring/fixed_msg_queue_handler.c"
static struct _fixed_msg_queue_handler_s *h; static int vf_pops, vf_succ, vf_cbs, vf_waits, vf_ready, vf_stop, ctx; static _Bool vf_stopped, vf_valid; static uint32_t vf_off; static char vf_byte; static size_t vf_min0;
static void vf_newstep(void) { vf_pops = vf_succ = vf_cbs = vf_waits = 0; h->flag2exit = BOOL(); h->min_valid_token = U64(); }
static _Bool vf_step_ok(void)
{
	ENSURES(vf_succ <= 1 && vf_cbs == (vf_succ && vf_valid), "a message received goes to the callback exactly once, unless it was queued before a clear");
	ENSURES(vf_waits <= 1 && vf_pops == vf_waits, "each wake-up takes one message");
	return !vf_stopped;
}
int portable_sem_wait(portable_sem_t *s) { ENSURES(s == &h->semaphore, "waits on its own semaphore"); vf_waits++; h->flag2exit = BOOL(); h->min_valid_token = U64(); return 0; }
int portable_sem_post(portable_sem_t *s) { return 0; } int portable_sem_init(portable_sem_t *s, int p, unsigned v) { return 0; } int portable_sem_destroy(portable_sem_t *s) { return 0; }
int portable_thread_create(portable_thread_t *t, const portable_thread_attr_t *a, void *(*f)(void *), void *x) { return 0; } int portable_thread_join(portable_thread_t t, void **r) { return 0; }
fixed_msg_queue fixed_msg_queue_create(uint32_t m, uint32_t n) { return 0; } void fixed_msg_queue_destroy(fixed_msg_queue *q) { } bool fixed_msg_queue_push(fixed_msg_queue q, const void *b) { return 0; }
uint32_t fixed_msg_queue_available_push_amount(const fixed_msg_queue q) { return 0; } uint32_t fixed_msg_queue_available_pop_amount(const fixed_msg_queue q) { return 0; }
bool fixed_msg_queue_pop(fixed_msg_queue q, void *b)
{
	ENSURES(q == h->msg_queue_p && !vf_stopped, "takes from its own queue, nothing after the callback asked to stop");
	ENSURES(!h->flag2exit, "takes nothing after the handler was told to exit"); vf_pops++;
	if (BOOL()) return 0;
	fixed_handler_msg_t *m = b; m->token = U64(); h->min_valid_token = U64(); vf_valid = m->token >= h->min_valid_token;
	if (vf_off < sizeof m->out_msg) ((char *)&m->out_msg)[vf_off] = vf_byte; vf_succ++; return 1;
}
static int handle(fixed_msg_t *m, void *u)
{
	ENSURES(u == &ctx && vf_succ == 1 && vf_cbs == 0 && !vf_stopped, "the callback gets the message just taken, once, with the user's data");
	ENSURES(vf_valid, "a message queued before a clear is not handed over");
	if (vf_off < sizeof *m) ENSURES(((char *)m)[vf_off] == vf_byte, "the message is handed over unchanged");
	vf_cbs++; if (BOOL()) { vf_stopped = 1; return (int)RANGE(0, 1) ? 1 : -1; } return 0;
}
static void status(msg_q_handler_status_e s, void *u) { ENSURES(u == &ctx, "user data"); if (s == MSG_Q_HANDLER_STATUS_READY_TO_GO) vf_ready++; else vf_stop++; }
void vf_harness(void)
{
	h = vf_alloc(sizeof *h); h->param.user_data = &ctx; h->param.fn_handle_msg = handle; h->param.fn_on_status_changed = BOOL() ? status : NULL; h->flag2exit = BOOL();
	vf_pops = vf_succ = vf_cbs = vf_ready = vf_stop = vf_waits = 0; vf_stopped = 0; vf_off = U32(); vf_byte = (char)U8(); bool st = h->param.fn_on_status_changed != NULL;
	thread_fun_handle_msg(h);
	ENSURES(h->flag2exit, "a worker that ends marks the handler as stopped, so nothing is accepted any more");
	ENSURES(vf_cbs == (vf_succ && vf_valid), "the last message received was handed over");
	if (st) ENSURES(vf_ready == 1 && vf_stop == 1, "start and stop are announced once");
	REACH("ends"); if (vf_stopped) REACH("stopped by the callback");
}
