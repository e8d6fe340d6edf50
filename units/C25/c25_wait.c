/*VF
kind: loopinv
src: src/thread/thpool.c
functions: thpool_wait thpool_num_threads_working
unwind: 3
nobmc: 1
san: nonat
assumes: a worker counts itself as working before it takes a job (c25_worker), so a job is queued or counted until it has run | termination is not claimed
*/
#define VF_INV_thpool_wait_1 (vf_hth == 1 && !vf_hrw && !vf_hb)
#define VF_HAV_thpool_wait_1 vf_whav()
#define VF_DEC_thpool_wait_1 (vf_fuel--)
static unsigned long long vf_fuel = 1000; static void vf_whav(void);
#include "thp.inc"
static void vf_whav(void) { vf_p->num_threads_working = vf_w0 = (int)RANGE(0, 1 << 30); vf_p->jobqueue.len = (int)RANGE(0, 1 << 30); }
static void *vf_m(size_t n) { return 0; }
static void vf_fr(void *p) { }
static int st_usleep(unsigned n) { return 0; }
static int st_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) { return 0; }
void vf_harness(void)
{
	vf_pool(); vf_p->jobqueue.len = (int)RANGE(0, 1 << 30);
	thpool_wait(vf_p);
	ENSURES(vf_w0 == 0 && vf_p->jobqueue.len == 0, "returns only when no job was queued or running, both seen in one hold of the counters' lock");
	ENSURES(VF_LOCKS, "every lock is released");
	vf_p->num_threads_working = 5; ENSURES(thpool_num_threads_working(vf_p) == 5, "reports the workers");
	REACH("returns");
}
