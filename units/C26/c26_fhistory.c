/*VF
kind: history
functions: fixed_msg_queue_handler_create fixed_msg_queue_handler_push fixed_msg_queue_handler_clear fixed_msg_queue_handler_destroy thread_fun_handle_msg
fuzz: 20
san: none
*/
#include "vf.h"
#include "nolog.h"
#include <sys/types.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include "coro.inc"
static int live, oom; static void *m_(size_t n) { if (oom) return NULL; live++; return (malloc)(n); } static void *c_(size_t a, size_t b) { if (oom) return NULL; live++; return (calloc)(a, b); } static void f_(void *p) { if (p) live--; (free)(p); }
#include <malloc.h>
#include "common_macro.h"
#define malloc(n) m_(n)
#define calloc(a, b) c_(a, b)
#define free(p) f_(p)
#include "src/thread/portable_thread_posix.c"
#include "src/ring/ringbuffer.c"
#include "src/ring/fixed_msg_queue.c"
#include "src/ring/fixed_msg_queue_handler.c"
#define NM 80
static int npush, ngot, ready, stopped, stopat, cbdepth, ctx, doneflag, cleared; static fixed_msg_queue_handler H; static bool dstop;
static int handle(fixed_msg_t *m, void *u)
{
	ENSURES(u == &ctx && !cbdepth && !stopped && ready, "one message at a time, between start and stop"); cbdepth = 1;
	int w = m->what; ENSURES(w > ngot && w <= npush + 1, "messages arrive in push order, once"); ENSURES(w > cleared, "a cleared message is not delivered");
	for (int k = ngot + 1; k < w; k++) ENSURES(k <= cleared, "only cleared messages are skipped");
	ENSURES(m->arg1 == ~w && m->obj.data_len == w * 3 && (unsigned char)m->obj.data[0] == (unsigned char)w && (unsigned char)m->obj.data[1023] == (unsigned char)(w * 5), "unchanged");
	ngot = w; co_yield(); cbdepth = 0; if (w == stopat) { stopped = 1; return -1; } return 0;
}
static void status(msg_q_handler_status_e s, void *u) { if (s == MSG_Q_HANDLER_STATUS_READY_TO_GO) { ENSURES(!ready, "ready once"); ready = 1; } else { ENSURES(ready && stopped != 2, "stop once"); stopped = 2; } }
static void *producer(void *p)
{
	fixed_msg_queue_handler_init_param_t pr = { &ctx, handle, status };
	static fixed_msg_t m; uint32_t cap = 2 + U8() % 6; H = fixed_msg_queue_handler_create(cap, &pr); ENSURES(H, "created");
	ENSURES(fixed_msg_queue_handler_available_push_amount(H) <= cap, "not more than was asked for");
	int n = U8() % 30;
	while (n-- > 0 && npush < NM) {
		int w = npush + 1; m.what = w; m.arg1 = ~w; m.obj.data_len = w * 3; m.obj.data[0] = (char)w; m.obj.data[1023] = (char)(w * 5);
		uint32_t avail = fixed_msg_queue_handler_available_push_amount(H); bool ex = stopped != 0;
		msg_q_code_e c = fixed_msg_queue_handler_push(H, &m);
		if (c == MSG_Q_CODE_SUCCESS) npush++;
		else { ENSURES(ngot < w, "a refused message is not delivered"); ENSURES(ex || stopped || (c == MSG_Q_CODE_FULL && !avail), "a message that fits is accepted"); }
		if (stopped == 2) ENSURES(fixed_msg_queue_handler_push(H, &m) != MSG_Q_CODE_SUCCESS, "nothing is accepted after the stop");
		if (U8() % 6 == 0) { fixed_msg_queue_handler_clear(H); cleared = npush; }
		if (U8() % 4 == 0) co_yield();
	}
	if (dstop) fixed_msg_queue_handler_destroy(&H);
	doneflag = 1; return 0;
}
static void *killer(void *p) { fixed_msg_queue_handler_destroy(&H); return 0; }
void vf_harness(void)
{
	co_reset(); npush = ngot = ready = stopped = cbdepth = doneflag = cleared = 0; live = oom = 0; H = NULL; dstop = U8() % 4 == 0; stopat = U8() % 3 == 0 ? 1 + U8() % 6 : 0;
	co_spawn(producer, NULL); co_run(); REQUIRES(!co_overrun);
	ENSURES(doneflag, "push and destroy never hang");
	if (!dstop) { if (!stopped) ENSURES(ngot == npush || npush == cleared, "every accepted message is delivered unless cleared"); co_spawn(killer, NULL); co_run(); }
	ENSURES(co_alldone() && !H && stopped == 2 && live == 0, "destroy ends the thread and releases everything");
}
int posix_thread_set_current_name(const char *n) { return 0; }
