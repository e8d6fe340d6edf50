/*VF
kind: full
src: src/lcu.c
functions: lcu_global_init lcu_global_cleanup
unwind: 3
nobmc: 1
san: nonat
assumes: fewer than 2^32-1 users at a time | one caller at a time (the functions are documented for start-up and exit)
*/
#include "vf.h"
#include "nolog.h"
#include "src/lcu.c"
static int ti, tc, xi, xc; static int rt, rx;
int time_util_global_init() { ti++; return rt; } int time_util_global_cleanup() { tc++; return rt; }
int xlog_global_init() { ENSURES(ti == 1, "time before log"); xi++; return rx; } int xlog_global_cleanup() { ENSURES(tc == 0, "log is cleaned before time"); xc++; return rx; }
/* one arbitrary call in an arbitrary state of the count: by induction any history of calls */
void vf_harness(void)
{
	unsigned users = U32(); REQUIRES(users < 0xffffffffu); g_init_times = users; ti = tc = xi = xc = 0; rt = U8(); rx = U8();
	if (BOOL()) {
		int r = lcu_global_init();
		ENSURES(ti == (users == 0) && xi == (users == 0) && tc == 0 && xc == 0, "set-up runs exactly when the first user enters");
		ENSURES(g_init_times == users + 1, "one more user"); ENSURES(users == 0 ? (r == 0) == (rt == 0 && rx == 0) : r == 0, "result"); REACH("init");
	} else {
		int r = lcu_global_cleanup();
		ENSURES(tc == (users == 1) && xc == (users == 1) && ti == 0 && xi == 0, "clean-up runs exactly when the last user leaves; a surplus clean-up does nothing");
		ENSURES(g_init_times == (users ? users - 1 : 0), "one user less"); ENSURES(users == 1 ? (r == 0) == (rt == 0 && rx == 0) : r == 0, "result"); REACH("cleanup");
	}
}
