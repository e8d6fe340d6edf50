/*VF
kind: history
functions: thpool_init thpool_add_work thpool_wait thpool_destroy thpool_num_threads_working thread_do jobqueue_push jobqueue_pull bsem_wait bsem_post
fuzz: 25
san: none
*/
#include "vf.h"
#include <sys/prctl.h>
#include "thread/posix_thread.h"
#include "coro.inc"
static int oom, live; static void *m_(size_t n) { if (oom) return NULL; live++; return malloc(n); } static void f_(void *p) { if (p) live--; free(p); }
#include <malloc.h>
#define malloc m_
#define free f_
#define prctl(...) 0
#define fprintf(...) ((void)0)
#include "src/thread/thpool.c"
#undef malloc
#undef free
#define NJ 24
static int ran[NJ], started[NJ], acc, nstart, running, order[NJ], nw, nprod, jobs, left, waited, waits, destroyed; static int subm[NJ], nsub; static threadpool pool;
typedef struct { int id; } ja; static ja args[NJ];
static void job_(void *p)
{
	ja *a = p; int i = a->id; ENSURES(p == &args[i] && i < NJ, "the job gets its own argument");
	ran[i]++; ENSURES(ran[i] == 1, "a job runs once"); order[nstart++] = i; running++; co_yield(); co_yield(); running--; left--;
}
static void *producer(void *p)
{
	int n = 1 + U8() % 6, id = (int)(intptr_t)p;
	while (n-- > 0 && jobs < NJ) {
		int i = jobs++; args[i].id = i; oom = U8() % 10 == 0; bool o = oom, nul = U8() % 12 == 0;
		if (!o && !nul) left++;
		int r = thpool_add_work(pool, nul ? NULL : job_, &args[i]);
		oom = 0;
		ENSURES((r == 0) == (!o && !nul), "accepted unless refused for a reason");
		if (r == 0) acc++; else started[i] = -1;
		if (U8() % 4 == 0) co_yield();
	}
	if (waits && id == 0) { thpool_wait(pool); waited = 1; if (nprod == 1) ENSURES(left == 0 && running == 0, "wait returns only when no job is queued or running"); }
	return 0;
}
static void *mainth(void *p)
{
	pool = thpool_init(nw); ENSURES(pool, "pool made");
	for (int i = 0; i < nprod; i++) { co_spawn(producer, (void *)(intptr_t)i); co_yield(); }
	return 0;
}
static void *killer(void *p) { thpool_destroy(pool); destroyed = 1; return 0; }
void vf_harness(void)
{
	co_reset(); memset(ran, 0, sizeof ran); memset(started, 0, sizeof started); acc = nstart = running = jobs = left = waited = destroyed = 0; oom = live = 0; pool = NULL;
	nw = 1 + U8() % 3; nprod = 1 + U8() % 3; waits = BOOL();
	co_spawn(mainth, NULL); co_run(); REQUIRES(!co_overrun);
	/* quiescent: everybody who can run has run */
	ENSURES(nstart == acc && left == 0, "no accepted job is stranded");
	for (int i = 0; i < jobs; i++) ENSURES(ran[i] == (started[i] == 0), "each accepted job ran once, refused ones never");
	if (nw == 1 && nprod == 1) for (int i = 1; i < nstart; i++) ENSURES(order[i - 1] < order[i], "submission order");
	if (waits) ENSURES(waited, "wait returns once everything is done");
	ENSURES(thpool_num_threads_working(pool) == 0, "nobody works any more");
	bool late = BOOL(); if (late) { int i = 0; (void)i; }
	co_spawn(killer, NULL); co_run(); REQUIRES(!co_overrun);
	ENSURES(destroyed && live == 0, "destroy releases everything");
	for (int i = 0; i < co_n; i++) ENSURES(co[i].done, "no thread is left");
}
