/* Cooperative threads for the native history runs: every pthread/semaphore/sleep call of the code under test is a
 * scheduling point, the next thread is drawn like any other input, so a failing schedule replays exactly.
 * co_run() returns when no thread can run any more (all finished or all blocked). */
#include <ucontext.h>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <time.h>
#include <signal.h>
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#define CO_MAX 12
#define CO_STK (96 * 1024)
typedef struct { ucontext_t c; char *stk; void *(*f)(void *); void *a; int used, done; const void *on; int (*ready)(const void *); int idx; } co_t;
static co_t co[CO_MAX]; static int co_cur, co_n; static ucontext_t co_main; static long co_steps, co_limit = 20000; static int co_overrun; static long co_now;
/* objects by address */
static struct { const void *p; int v; int owner; } co_o[96]; static int co_no;
static int co_obj(const void *p) { for (int i = 0; i < co_no; i++) if (co_o[i].p == p) return i; ENSURES(co_no < 96, "too many sync objects"); co_o[co_no].p = p; co_o[co_no].v = 0; co_o[co_no].owner = -1; return co_no++; }
static void co_reset(void) { for (int i = 0; i < CO_MAX; i++) { free(co[i].stk); memset(&co[i], 0, sizeof co[i]); } co_n = co_no = 0; co_cur = -1; co_steps = 0; co_overrun = 0; co_now = 1000; }
static void co_tramp(int i) { co[i].f(co[i].a); co[i].done = 1; swapcontext(&co[i].c, &co_main); }
static int co_spawn(void *(*f)(void *), void *a)
{
	ENSURES(co_n < CO_MAX, "too many threads"); int i = co_n++; co[i].stk = malloc(CO_STK); co[i].f = f; co[i].a = a; co[i].used = 1; co[i].done = 0; co[i].ready = NULL;
	getcontext(&co[i].c); co[i].c.uc_stack.ss_sp = co[i].stk; co[i].c.uc_stack.ss_size = CO_STK; co[i].c.uc_link = &co_main; makecontext(&co[i].c, (void (*)(void))co_tramp, 1, i);
	return i;
}
static void co_switch(void) { if (co_cur >= 0) swapcontext(&co[co_cur].c, &co_main); }
static void co_yield(void) { co_switch(); }
static void co_block(int (*ready)(const void *), const void *on) { co[co_cur].ready = ready; co[co_cur].on = on; co_switch(); }
static void co_run(void)
{
	for (;;) {
		int r[CO_MAX], n = 0;
		for (int i = 0; i < co_n; i++) if (!co[i].done && (!co[i].ready || co[i].ready(co[i].on))) r[n++] = i;
		if (!n) return;
		if (++co_steps > co_limit) { co_overrun = 1; return; }
		int k = r[n > 1 ? U8() % n : 0]; co[k].ready = NULL; co_cur = k; swapcontext(&co_main, &co[k].c); co_cur = -1;
	}
}
static int co_alldone(void) { for (int i = 0; i < co_n; i++) if (!co[i].done) return 0; return 1; }
static int co_free_(const void *p) { return co_o[co_obj(p)].owner < 0; }
static int co_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { int i = co_obj(m); co_o[i].owner = -1; return 0; }
static int co_mutex_lock(pthread_mutex_t *m)
{
	if (co_cur < 0) { ENSURES(co_o[co_obj(m)].owner < 0, "lock taken twice"); co_o[co_obj(m)].owner = 99; return 0; }
	ENSURES(co_o[co_obj(m)].owner != co_cur, "a thread locks a mutex it holds");
	co_block(co_free_, m); co_o[co_obj(m)].owner = co_cur; return 0;
}
static int co_mutex_unlock(pthread_mutex_t *m) { int i = co_obj(m); ENSURES(co_o[i].owner == (co_cur < 0 ? 99 : co_cur), "unlock of a mutex that is not held"); co_o[i].owner = -1; co_yield(); return 0; }
static int co_mutex_destroy(pthread_mutex_t *m) { ENSURES(co_o[co_obj(m)].owner < 0, "destroys a held mutex"); return 0; }
typedef struct { const void *c, *m; int woken; } co_w; static co_w co_ws[CO_MAX];
static int co_woken(const void *p) { const co_w *w = p; return w->woken && co_free_(w->m); }
static int co_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { return 0; }
static int co_cond_destroy(pthread_cond_t *c) { return 0; }
static int co_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	int i = co_obj(m); ENSURES(co_cur >= 0 && co_o[i].owner == co_cur, "condition wait without the mutex");
	co_o[i].owner = -1; co_w *w = &co_ws[co_cur]; w->c = c; w->m = m; w->woken = 0; if (U8() % 16 == 0) w->woken = 1;   /* spurious wake-up */
	co_block(co_woken, w); w->c = NULL; co_o[i].owner = co_cur; return 0;
}
static int co_cond_broadcast(pthread_cond_t *c) { for (int i = 0; i < co_n; i++) if (co_ws[i].c == c) co_ws[i].woken = 1; return 0; }
static int co_cond_signal(pthread_cond_t *c)
{
	int r[CO_MAX], n = 0; for (int i = 0; i < co_n; i++) if (co_ws[i].c == c && !co_ws[i].woken) r[n++] = i;
	if (n) co_ws[r[n > 1 ? U8() % n : 0]].woken = 1; return 0;
}
static int co_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) { int i = co_spawn(f, arg); *t = (pthread_t)(i + 1); co_yield(); return 0; }
static int co_isdone(const void *p) { return co[(int)(intptr_t)p - 1].done; }
static int co_join(pthread_t t, void **r) { if (co_cur >= 0) co_block(co_isdone, (void *)(intptr_t)t); return 0; }
static int co_detach(pthread_t t) { return 0; }
static int co_sem_init(sem_t *s, int sh, unsigned v) { co_o[co_obj(s)].v = (int)v; return 0; }
static int co_sem_pos(const void *s) { return co_o[co_obj(s)].v > 0; }
static int co_sem_wait(sem_t *s) { if (co_cur < 0) { ENSURES(co_sem_pos(s), "blocks for ever"); } else co_block(co_sem_pos, s); co_o[co_obj(s)].v--; return 0; }
static int co_sem_trywait(sem_t *s) { co_yield(); if (!co_sem_pos(s)) { errno = EAGAIN; return -1; } co_o[co_obj(s)].v--; return 0; }
static int co_sem_post(sem_t *s) { co_o[co_obj(s)].v++; co_yield(); return 0; }
static int co_sem_getvalue(sem_t *s, int *v) { *v = co_o[co_obj(s)].v; return 0; }
static int co_sem_destroy(sem_t *s) { return 0; }
static int co_sleep(unsigned n) { co_now += n; co_yield(); return 0; }
static int co_usleep(unsigned n) { co_yield(); return 0; }
static time_t co_time(time_t *t) { co_yield(); if (t) *t = co_now; return co_now; }
#define pthread_mutex_init co_mutex_init
#define pthread_mutex_lock co_mutex_lock
#define pthread_mutex_unlock co_mutex_unlock
#define pthread_mutex_destroy co_mutex_destroy
#define pthread_cond_init co_cond_init
#define pthread_cond_destroy co_cond_destroy
#define pthread_cond_wait co_cond_wait
#define pthread_cond_signal co_cond_signal
#define pthread_cond_broadcast co_cond_broadcast
#define pthread_create co_create
#define pthread_join co_join
#define pthread_detach co_detach
#define sem_init co_sem_init
#define sem_wait co_sem_wait
#define sem_trywait co_sem_trywait
#define sem_post co_sem_post
#define sem_destroy co_sem_destroy
#define sem_getvalue co_sem_getvalue
#undef sleep
#undef usleep
#define sleep co_sleep
#define usleep co_usleep
#define time co_time
