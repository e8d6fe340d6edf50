/* The pool as one thread sees it.  While this thread does not hold the lock that protects a variable, the variable is
 * arbitrary (any other thread may change it); taking the lock establishes the lock's invariant for an arbitrary state,
 * releasing it hands the state over and the contract looks at what was handed over.
 *  rwmutex      : the job queue holds n jobs, any n; front, second and rear job are materialised
 *  bsem mutex   : v is 0 or 1
 *  thcount_lock : the counters, arbitrary */
#include "vf.h"
#include <signal.h>
#include <sys/prctl.h>
#include <time.h>
#include <malloc.h>
#include "thread/posix_thread.h"
static int vf_v0, vf_w0, vf_a0, vf_hrw, vf_hb, vf_hth;                 /* locks held by this thread */
static int vf_nrw, vf_takes, vf_posts, vf_postn, vf_sig, vf_sigidle, vf_needsig, vf_mywork, vf_myalive;
static int st_lock(pthread_mutex_t *m), st_unlock(pthread_mutex_t *m), st_wait(pthread_cond_t *c, pthread_mutex_t *m), st_signal(pthread_cond_t *c), st_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg);
static void *vf_m(size_t n), vf_fr(void *p); static int st_usleep(unsigned n);
#define pthread_mutex_lock st_lock
#define pthread_mutex_unlock st_unlock
#define pthread_mutex_init(m, a) 0
#define pthread_cond_init(m, a) 0
#define pthread_mutex_destroy(m) 0
#define pthread_cond_destroy(m) 0
#define pthread_cond_wait st_wait
#define pthread_cond_signal st_signal
#define pthread_cond_broadcast st_signal
#define pthread_create st_create
#define pthread_detach(t) 0
#define malloc vf_m
#define free vf_fr
#undef usleep
#undef sleep
#define usleep st_usleep
#define sleep st_usleep
#define time(p) (*(p) = (time_t)nondet_u32())
#define difftime(a, b) ((double)((a) - (b)))
#define prctl(...) 0
#define snprintf(b, n, ...) ((void)((b)[0] = 0))
#define fprintf(...) 0
#define sigemptyset(p) 0
int sigaction(int n, const struct sigaction *a, struct sigaction *o) { return BOOL() ? 0 : -1; }
#define VF_LOCKS (vf_hrw == 0 && vf_hb == 0 && vf_hth == 0)
#include "src/thread/thpool.c"
static thpool_ *vf_p; static bsem *vf_s; static job *vf_F, *vf_X, *vf_R; static size_t vf_n; 
static job *vf_of, *vf_or; static int vf_olen;    /* queue as handed over at the last release of rwmutex */
#ifdef VF_SINGLE
#define vf_poison() ((void)0)
#else
static void vf_poison(void) { vf_p->jobqueue.front = nondet_ptr(); vf_p->jobqueue.rear = nondet_ptr(); }
#endif
static void vf_queue(void)
{
	jobqueue *q = &vf_p->jobqueue; vf_n = nondet_u64(); __CPROVER_assume(vf_n < 0x7fffffff);
	q->len = (int)vf_n;
	q->front = vf_n ? vf_F : 0; q->rear = vf_n == 0 ? 0 : vf_n == 1 ? vf_F : vf_R;
	vf_F->prev = vf_n == 2 ? vf_R : vf_X; vf_R->prev = nondet_ptr(); if (vf_n == 1) vf_F->prev = nondet_ptr();
}
#ifndef VF_KEEP
#define VF_KEEP() (vf_p->threads_keepalive = BOOL())
#endif
static int st_lock(pthread_mutex_t *m)
{
	VF_KEEP();
	if (m == &vf_p->jobqueue.rwmutex) { ENSURES(!vf_hrw && !vf_hb, "queue lock not held yet"); vf_hrw = 1; vf_nrw++; vf_postn = 0;
#ifndef VF_SINGLE
		vf_queue();
#endif
#ifdef VF_WORKER
		ENSURES(vf_mywork == 1, "a worker counts itself as working before it takes a job");
#endif
	} else if (m == &vf_s->mutex) { ENSURES(!vf_hb, "semaphore lock not held yet"); vf_hb = 1; vf_s->v = vf_v0 = BOOL(); }
	else {
		ENSURES(m == &vf_p->thcount_lock && !vf_hth, "a lock of the pool, not held yet"); vf_hth = 1;
		vf_p->num_threads_working = vf_w0 = (int)RANGE(vf_mywork, 1 << 30); vf_p->num_threads_alive = vf_a0 = (int)RANGE(vf_myalive, 1 << 30);
	}
	return 0;
}
static int st_unlock(pthread_mutex_t *m)
{
	if (m == &vf_p->jobqueue.rwmutex) { ENSURES(vf_hrw, "releases a lock it holds"); vf_hrw = 0; vf_of = vf_p->jobqueue.front; vf_or = vf_p->jobqueue.rear; vf_olen = vf_p->jobqueue.len; vf_poison(); }
	else if (m == &vf_s->mutex) {
		ENSURES(vf_hb, "releases a lock it holds"); vf_hb = 0; int v = vf_s->v;
		ENSURES(v == 0 || v == 1, "the semaphore is binary");
		if (v == 1) { vf_posts++; vf_postn = 1; } else if (vf_v0 == 1) vf_takes++;
		vf_s->v = (int)nondet_u32();
	} else {
		ENSURES(m == &vf_p->thcount_lock && vf_hth, "releases a lock it holds"); vf_hth = 0;
		vf_mywork += vf_p->num_threads_working - vf_w0; vf_myalive += vf_p->num_threads_alive - vf_a0;
		ENSURES(vf_mywork == 0 || vf_mywork == 1, "a thread counts as working once"); ENSURES(vf_myalive == 0 || vf_myalive == 1, "a thread counts as alive once");
		if (vf_p->num_threads_working == 0 && vf_w0 > 0) vf_needsig = 1;
		if (vf_sigidle) vf_needsig = 0;
		vf_sigidle = 0;
#ifdef VF_WORKER
		vf_thcount_released();
#endif
		vf_p->num_threads_working = (int)nondet_u32(); vf_p->num_threads_alive = (int)nondet_u32();
	}
	return 0;
}
static int st_signal(pthread_cond_t *c)
{
	if (c == &vf_s->cond) { ENSURES(!vf_hb || vf_s->v == 1, "wakes a waiter when the semaphore is set"); vf_sig++; }
	else { ENSURES(c == &vf_p->threads_all_idle, "a condition of the pool"); if (vf_hth) vf_sigidle = 1; else vf_needsig = 0; }
	return 0;
}
static int st_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	VF_KEEP();
	if (c == &vf_s->cond) { ENSURES(m == &vf_s->mutex && vf_hb && !vf_hrw && !vf_hth, "waits with the semaphore's lock only"); vf_s->v = vf_v0 = BOOL(); }
	else { ENSURES(c == &vf_p->threads_all_idle && m == &vf_p->thcount_lock && vf_hth && !vf_hrw && !vf_hb, "waits with the counters' lock only"); vf_p->num_threads_working = vf_w0 = (int)RANGE(0, 1 << 30); vf_p->num_threads_alive = vf_a0 = (int)RANGE(0, 1 << 30); vf_p->jobqueue.len = (int)RANGE(0, 1 << 30); }
	return 0;
}
static void vf_pool(void)
{
	vf_p = vf_alloc(sizeof *vf_p); vf_s = vf_alloc(sizeof *vf_s); vf_F = vf_alloc(sizeof *vf_F); vf_X = vf_alloc(sizeof *vf_X); vf_R = vf_alloc(sizeof *vf_R);
	vf_p->jobqueue.has_jobs = vf_s; vf_poison();
	vf_hrw = vf_hb = vf_hth = vf_nrw = vf_takes = vf_posts = vf_postn = vf_sig = vf_sigidle = vf_needsig = vf_mywork = vf_myalive = 0;
}
