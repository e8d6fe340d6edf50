/*VF
kind: full
src: src/thread/thpool.c
functions: thpool_add_work jobqueue_push bsem_post
unwind: 3
nobmc: 1
san: nonat
assumes: pthread mutexes exclude each other; a variable protected by a lock changes only by threads holding it
*/
#include "thp.inc"
static _Bool vf_oom; static job *vf_new; static int vf_news;
static void *vf_m(size_t n) { if (vf_oom) return 0; vf_news++; return vf_new = vf_alloc(n); }
static void vf_fr(void *p) { ENSURES(vf_new && p == vf_new, "frees its own"); vf_news--; }
static int st_usleep(unsigned n) { return 0; }
static int st_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) { return 0; }
static void work(void *a) { ENSURES(0, "submitting does not run the job"); }
void vf_harness(void)
{
	vf_pool(); vf_oom = BOOL(); vf_news = 0; vf_new = 0; bool nul = BOOL(); void *arg = nondet_ptr();
	int r = thpool_add_work(vf_p, nul ? NULL : work, arg);
	ENSURES(VF_LOCKS, "every lock is released");
	ENSURES((r == 0) == (!nul && !vf_oom), "accepted unless there is no function or no memory");
	if (r) { ENSURES(vf_nrw == 0 && vf_posts == 0 && vf_news == 0, "a refused job leaves the pool unchanged"); REACH("refused"); return; }
	ENSURES(vf_news == 1 && vf_new->function == work && vf_new->arg == arg, "the job carries its function and argument");
	ENSURES(vf_nrw == 1 && vf_olen == (int)vf_n + 1, "one job more");
	if (vf_n == 0) { ENSURES(vf_of == vf_new && vf_or == vf_new, "the only job"); REACH("first"); }
	else { ENSURES(vf_of == vf_F && vf_or == vf_new && (vf_n == 1 ? vf_F : vf_R)->prev == vf_new && (vf_n == 1 || vf_F->prev == (vf_n == 2 ? vf_R : vf_X)), "behind the jobs queued before"); REACH("more"); }
	ENSURES(vf_postn && vf_sig > 0, "a wake-up is made no earlier than the job is queued");
}
