/*VF
kind: history
functions: msg_queue_handler_create msg_queue_handler_push msg_queue_handler_destroy thread_worker_handle_msg
fuzz: 20
san: none
*/
#include "vf.h"
#include "nolog.h"
#include <sys/types.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include "coro.inc"
static int live, oom;
/* every block carries its size and a guard behind its end */
static void *g_(size_t n) { char *p = (malloc)(n + 32); memcpy(p, &n, sizeof n); memset(p + 16 + n, 0x5A, 16); live++; return p + 16; }
static size_t gsize(const void *p) { size_t n; memcpy(&n, (const char *)p - 16, sizeof n); return n; }
static void gchk(const void *p) { const char *e = (const char *)p + gsize(p); for (int i = 0; i < 16; i++) ENSURES(e[i] == 0x5A, "nothing is written behind a block"); }
static void *m_(size_t n) { return oom ? NULL : g_(n); } static void *c_(size_t a, size_t b) { if (oom) return NULL; void *p = g_(a * b); memset(p, 0, a * b); return p; } static void f_(void *p) { if (p) { live--; gchk(p); (free)((char *)p - 16); } }
#include <malloc.h>
#include "common_macro.h"
#define malloc(n) m_(n)
#define calloc(a, b) c_(a, b)
#define free(p) f_(p)
#include "src/thread/portable_thread_posix.c"
#include "src/ring/ringbuffer.c"
#include "src/ring/msg_queue.c"
#include "src/ring/msg_queue_handler.c"
#define NM 60
#define DATA(w, i) ((unsigned char)((w) * 7 + (i) * 3 + ((i) >> 8)))
static bool bigmode; static int len[NM], what[NM], npush, ngot, ready, stopped, stopat, cbdepth, ctx, doneflag, accepted[NM], nacc; static msg_queue_handler H; static bool dstop;
static int handle(queue_msg_t *m, void *u)
{
	ENSURES(u == &ctx, "user data"); ENSURES(!cbdepth, "one message at a time"); ENSURES(!stopped, "nothing is delivered after the callback asked to stop or after the thread ended"); ENSURES(ready, "ready is announced first"); cbdepth = 1;
	ENSURES(ngot < npush, "no message that was not pushed"); int i = ngot++;
	ENSURES(m->what == what[i] && m->arg1 == ~what[i] && m->obj_len == len[i], "messages arrive in push order, unchanged, once"); ENSURES(gsize(m) >= sizeof *m + (size_t)len[i], "the message lies whole in the handler's buffer"); gchk(m);
	for (int k = 0; k < len[i]; k++) ENSURES((unsigned char)m->obj[k] == DATA(i, k), "messages arrive byte-exact");
	co_yield(); cbdepth = 0;
	if (ngot == stopat) { stopped = 1; return 7; } return 0;
}
static void status(msg_q_handler_status_e s, void *u) { if (s == MSG_Q_HANDLER_STATUS_READY_TO_GO) { ENSURES(!ready, "ready once"); ready = 1; } else { ENSURES(ready && stopped != 2, "stop once"); stopped = 2; } }
static void *producer(void *p)
{
	msg_queue_handler_init_param_t pr = { &ctx, handle, status };
	static union { queue_msg_t m; char b[20000]; } u; uint32_t cap = (bigmode ? 20000 : 60) + U8(); H = msg_queue_handler_create(cap, &pr); ENSURES(H, "created");
	uint32_t slots = msg_queue_handler_available_push_bytes(H);
	int n = U8() % 30;
	while (n-- > 0) {
		int l = bigmode && U8() % 3 == 0 ? (4096 << (U8() % 3)) - 40 + U8() % 48 : U8() % 90; u.m.obj_len = l; u.m.what = npush * 3 + 1; u.m.arg1 = ~u.m.what; for (int i = 0; i < l; i++) u.m.obj[i]  = (char)DATA(npush, i); len[npush] = l; what[npush] = u.m.what;
		uint32_t avail = msg_queue_handler_available_push_bytes(H); bool ex = stopped != 0; int bef = npush; npush++;
		msg_q_code_e c = msg_queue_handler_push(H, &u.m);
		if (c == MSG_Q_CODE_SUCCESS) ENSURES(16u + (uint32_t)l + 4 <= slots, "only what can fit is accepted");
		else { ENSURES(ngot <= bef, "a refused message is not delivered"); npush = bef; ENSURES(ex || stopped || (c == MSG_Q_CODE_FULL && 16u + (uint32_t)l + 4 > avail), "a message that fits is accepted"); }
		if (stopped == 2) ENSURES(msg_queue_handler_push(H, &u.m) != MSG_Q_CODE_SUCCESS, "nothing is accepted after the stop");
		if (U8() % 4 == 0) co_yield();
	}
	if (dstop) msg_queue_handler_destroy(&H);
	doneflag = 1; return 0;
}
static void *killer(void *p) { msg_queue_handler_destroy(&H); return 0; }
void vf_harness(void)
{
	co_reset(); npush = ngot = ready = stopped = cbdepth = doneflag = 0; live = oom = 0; H = NULL; bigmode = U8() % 4 == 0; dstop = U8() % 4 == 0; stopat = U8() % 3 == 0 ? 1 + U8() % 6 : 0;
	co_spawn(producer, NULL); co_run(); REQUIRES(!co_overrun);
	ENSURES(doneflag, "push and destroy never hang");
	if (!dstop) { if (!stopped) ENSURES(ngot == npush, "every accepted message is delivered"); else ENSURES(ngot == stopat, "stops at the message whose callback asked for it"); co_spawn(killer, NULL); co_run(); }
	ENSURES(co_alldone() && !H && stopped == 2 && live == 0, "destroy ends the thread and releases everything");
}
int posix_thread_set_current_name(const char *n) { return 0; }
