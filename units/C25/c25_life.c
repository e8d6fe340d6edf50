/*VF
kind: loopinv
src: src/thread/thpool.c
functions: thpool_destroy jobqueue_destroy jobqueue_clear bsem_post_all thread_destroy
unwind: 3
nobmc: 1
san: nonat
assumes: no other thread uses the pool once its workers have ended | termination of the polling loops is not claimed
*/
#define VF_INV_thpool_destroy_1 (VF_LOCKS && thpool_p->threads_keepalive == 0 && vf_k == 0)
#define VF_HAV_thpool_destroy_1 thpool_p->num_threads_alive = (int)RANGE(0, 1000)
#define VF_DEC_thpool_destroy_1 (vf_fuel--)
#define VF_INV_thpool_destroy_2 (VF_LOCKS && thpool_p->threads_keepalive == 0 && vf_k == 0)
#define VF_HAV_thpool_destroy_2 thpool_p->num_threads_alive = (int)RANGE(0, 1000)
#define VF_DEC_thpool_destroy_2 (vf_fuel--)
#define VF_INV_jobqueue_clear_1 ({ VF_LOCKS && jobqueue_p->len >= 0 && (unsigned long)jobqueue_p->len + vf_k == vf_total && vf_qok((unsigned long)jobqueue_p->len); })
#define VF_HAV_jobqueue_clear_1 vf_k = OFF(vf_total), jobqueue_p->len = (int)(vf_total - vf_k), vf_set(vf_total - vf_k)
#define VF_DEC_jobqueue_clear_1 (jobqueue_p->len)
#define VF_INV_thpool_destroy_3 (n >= 0 && n <= threads_total && threads_total == vf_nt && vf_tfreed == (unsigned long)n && (vf_wfree == (vf_wt < n)) && vf_T[vf_wt] == vf_wthr && vf_tclear(n))
#define VF_HAV_thpool_destroy_3 vf_tfreed = n, vf_wfree = vf_wt < n, vf_thav(n)
#define VF_DEC_thpool_destroy_3 (threads_total - n)
static unsigned long long vf_fuel = 1000; static unsigned long vf_total, vf_k, vf_tfreed; static int vf_nt, vf_wt, vf_wfree; struct thread; static struct thread **vf_T, *vf_wthr, *vf_othr;
#define VF_SINGLE
static _Bool vf_qok(unsigned long len); static void vf_set(unsigned long len), vf_thav(int n); static _Bool vf_tclear(int n);
#define VF_KEEP() ((void)0)
#include "thp.inc"
static int vf_dead, vf_ps, vf_pp, vf_pt;
/* the queue holds len jobs (front is F) */
static void vf_set(size_t len) { vf_p->jobqueue.front = len ? vf_F : 0; vf_p->jobqueue.rear = len == 0 ? 0 : len == 1 ? vf_F : vf_R; vf_F->prev = len == 2 ? vf_R : len > 2 ? vf_X : 0; }
/* the front link and rear of a queue of len jobs, whichever of the materialised jobs is now the front */
static _Bool vf_qok(size_t len)
{
	job *f = vf_p->jobqueue.front, *r = vf_p->jobqueue.rear;
	if (len == 0) return f == 0 && r == 0;
	if (f == vf_F) return 1;
	return len == 1 ? f == vf_R && r == vf_R : f == vf_X && r == vf_R;
}
static _Bool vf_tclear(int n) { return 1; }
static void vf_thav(int n) { if (n < 0) return; if (n < vf_nt && n != vf_wt) vf_T[n] = vf_othr; if (n == vf_wt && n < vf_nt) vf_T[n] = vf_wthr; }
static void *vf_m(size_t n) { ENSURES(0, "no allocation"); return 0; }
static void vf_fr(void *p)
{
	if (!p) return;
	if (p == vf_F) { vf_k++; ENSURES(vf_p->jobqueue.front != vf_F || 1, "job released"); return; }
	if (p == vf_s) { vf_ps++; return; }
	if (p == vf_T) { vf_pt++; return; }
	if (p == vf_p) { vf_pp++; return; }
	if (p == vf_wthr) { vf_wfree++; vf_tfreed++; return; }
	if (p == vf_othr) { vf_tfreed++; return; }
	ENSURES(0, "releases only what belongs to the pool");
}
static int st_usleep(unsigned n) { vf_p->num_threads_alive = (int)RANGE(0, 1000); return 0; }
static int st_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) { ENSURES(0, "no thread is made"); return 0; }
void vf_harness(void)
{
	thpool_destroy(NULL);
	vf_pool(); vf_nt = (int)RANGE(0, 1000); vf_wt = vf_nt ? (int)RANGE(0, vf_nt - 1) : 0; vf_T = vf_alloc(sizeof(*vf_T) * (vf_nt + 1)); vf_wthr = vf_alloc(sizeof(thread)); vf_othr = vf_alloc(sizeof(thread)); vf_p->threads = vf_T; if (vf_nt) vf_T[vf_wt] = vf_wthr; else vf_T[0] = vf_wthr;
	vf_total = RANGE(0, 1 << 30); vf_p->jobqueue.len = (int)vf_total; vf_k = vf_tfreed = 0; vf_wfree = vf_ps = vf_pp = vf_pt = 0; vf_p->num_threads_alive = vf_nt; vf_set(vf_total);
	vf_p->threads_keepalive = 1;
	thpool_destroy(vf_p);
	ENSURES(vf_k == vf_total, "every job still queued is released once");
	ENSURES(vf_ps == 1 && vf_pt == 1 && vf_pp == 1, "the semaphore, the thread table and the pool are released once");
	ENSURES(vf_tfreed == (unsigned long)vf_nt && (vf_nt == 0 || vf_wfree == 1), "every thread record is released once");
	ENSURES(VF_LOCKS, "every lock is released");
	REACH("destroyed");
}
