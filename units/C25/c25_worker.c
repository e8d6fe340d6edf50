/*VF
kind: loopinv
src: src/thread/thpool.c
functions: thread_do jobqueue_pull bsem_wait bsem_post
unwind: 3
nobmc: 1
san: nonat
assumes: pthread mutexes exclude each other; a variable protected by a lock changes only by threads holding it | termination of the worker's loops is not claimed
*/
#define VF_WORKER
static void vf_thcount_released(void);
#define VF_INV_thread_do_1 ({ vf_step_done(); VF_LOCKS && vf_mywork == 0 && vf_myalive == 1 && !vf_needsig; })
#define VF_HAV_thread_do_1 vf_newstep()
#define VF_DEC_thread_do_1 (vf_fuel--)
#define VF_INV_bsem_wait_1 (vf_hb == 1 && !vf_hrw && !vf_hth && (bsem_p->v == 0 || bsem_p->v == 1) && vf_v0 == bsem_p->v)
#define VF_HAV_bsem_wait_1 bsem_p->v = vf_v0 = BOOL()
#define VF_DEC_bsem_wait_1 (vf_fuel--)
static unsigned long long vf_fuel = 1000; static void vf_newstep(void), vf_step_done(void);
#include "thp.inc"
static int vf_ran, vf_freed, vf_checked; static void *vf_arg, *vf_ranarg;
static void *vf_m(size_t n) { ENSURES(0, "no allocation"); return 0; }
static void vf_fr(void *p) { if (!p) return; ENSURES(vf_nrw == 1 && vf_n > 0 && p == vf_F, "frees the job it took"); vf_freed++; vf_F->function = 0; vf_F->arg = nondet_ptr(); }
static int st_usleep(unsigned n) { return 0; }
static int st_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) { return 0; }
static void work(void *a)
{
	ENSURES(vf_nrw == 1 && vf_n > 0, "runs only a job it took"); ENSURES(a == vf_arg, "the job gets its own argument");
	ENSURES(VF_LOCKS, "jobs run without any lock held"); ENSURES(vf_mywork == 1, "a running job is counted"); vf_ran++;
}
static void vf_thcount_released(void) { if (vf_nrw && !vf_mywork) ENSURES(vf_ran == (vf_n > 0), "a worker stops counting as working only after the job has run"); }
static void vf_newstep(void)
{
	vf_nrw = vf_takes = vf_posts = vf_postn = vf_sig = vf_ran = vf_freed = 0; vf_F->function = work; vf_F->arg = vf_arg; vf_p->threads_keepalive = BOOL();
}
static void vf_step_done(void)
{
	ENSURES(vf_nrw <= 1 && vf_nrw >= vf_takes, "each wake-up taken leads to one look into the queue");
	if (vf_nrw) {
		ENSURES(vf_ran == (vf_n > 0) && vf_freed == (vf_n > 0), "the job taken runs once and is released once");
		ENSURES(vf_olen == (vf_n > 0 ? (int)vf_n - 1 : 0), "one job less");
		if (vf_n <= 1) ENSURES(vf_of == 0 && vf_or == 0, "the queue is empty");
		else { ENSURES(vf_of == (vf_n == 2 ? vf_R : vf_X) && vf_or == vf_R, "the oldest job is taken, the others stay in order"); ENSURES(vf_postn && vf_sig > 0, "a wake-up is made for the jobs left"); }
		vf_checked = 1;
	}
}
void vf_harness(void)
{
	vf_pool(); vf_arg = nondet_ptr(); vf_checked = 0; vf_newstep(); thread t; t.id = (int)U32(); t.thpool_p = vf_p;
	thread_do(&t);
	ENSURES(VF_LOCKS && vf_myalive == 0 && vf_mywork == 0 && vf_ran == 0, "a thread that ends holds no lock, is not counted and ran nothing after the stop");
	REACH("ends");
}
