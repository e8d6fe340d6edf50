/*VF
kind: full
src: src/lcu.c src/time/time_util.c
functions: lcu_global_init lcu_global_cleanup time_util_global_init time_util_global_cleanup
unwind: 4
nobmc: 1
san: nonat
assumes: portable_rwlock_init/destroy by the POSIX contract (init sets a handle, or NULL on failure; destroy releases it)
*/
#include "vf.h"
#include "nolog.h"
#include "src/lcu.c"
#include "src/time/time_util.c"
static int live, made, gone, oom; static char obj[2]; static int xl;
int portable_rwlock_init(portable_rwlock_t *l, void *a) { ENSURES(*l == NULL, "no lock is made twice"); if (oom) { *l = NULL; return -2; } *l = &obj[live & 1]; live++; made++; return 0; }
int portable_rwlock_destroy(portable_rwlock_t *l) { ENSURES(*l != NULL && live > 0, "no lock is destroyed twice"); live--; gone++; *l = NULL; return 0; }
int portable_rwlock_rdlock(portable_rwlock_t *l) { return 0; } int portable_rwlock_wrlock(portable_rwlock_t *l) { return 0; } int portable_rwlock_unlock(portable_rwlock_t *l) { return 0; }
int xlog_global_init() { xl++; return 0; } int xlog_global_cleanup() { xl--; return 0; }
/* from the initial state: no user; then init, init, cleanup, cleanup, cleanup, init */
void vf_harness(void)
{
	ENSURES(g_init_times == 0, "nobody uses the library at first"); live = made = gone = xl = oom = 0;
	lcu_global_cleanup(); ENSURES(gone == 0 && xl == 0, "surplus clean-up does nothing");
	lcu_global_init(); ENSURES(live == made && xl == 1, "set up"); int m = made;
	lcu_global_init(); ENSURES(made == m && live == m && xl == 1, "only once");
	lcu_global_cleanup(); ENSURES(live == m && xl == 1, "still used");
	lcu_global_cleanup(); ENSURES(live == 0 && xl == 0, "cleaned up");
	lcu_global_cleanup(); ENSURES(live == 0 && gone == m && xl == 0, "surplus clean-up does nothing");
	lcu_global_init(); ENSURES(live == m && xl == 1, "works again"); lcu_global_cleanup(); ENSURES(live == 0 && xl == 0, "released again");
	/* the subsystem's own set-up and clean-up are idempotent too */
	time_util_global_init(); time_util_global_init(); ENSURES(live == m, "set-up again keeps the locks"); time_util_global_cleanup(); time_util_global_cleanup(); ENSURES(live == 0, "clean-up again does nothing"); REACH("end");
}
