/*VF
kind: history
functions: lcu_global_init lcu_global_cleanup
fuzz: 10
*/
#include "vf.h"
#include "nolog.h"
#include "src/lcu.c"
static int ti, xi, ni, nc;
int time_util_global_init() { ENSURES(ti == 0, "set-up once"); ti = 1; ni++; return 0; } int time_util_global_cleanup() { ENSURES(ti == 1 && xi == 0, "clean-up once, after the log"); ti = 0; nc++; return 0; }
int xlog_global_init() { ENSURES(xi == 0 && ti == 1, "set-up once"); xi = 1; return 0; } int xlog_global_cleanup() { ENSURES(xi == 1, "clean-up once"); xi = 0; return 0; }
void vf_harness(void)
{
	uint32_t users = 0, n = SZ(0, 60); int exp_i = ni, exp_c = nc;
	while (lcu_global_cleanup() == 0 && ti) ; exp_c = nc;
	for (uint32_t i = 0; i < n; i++) {
		if (BOOL()) { if (users++ == 0) exp_i++; ENSURES(lcu_global_init() == 0, "init"); }
		else { if (users == 1) exp_c++; if (users) users--; ENSURES(lcu_global_cleanup() == 0, "cleanup"); }
		ENSURES(ni == exp_i && nc == exp_c && ti == (users > 0) && xi == (users > 0), "the subsystems live exactly while there are users");
	}
	while (users) { users--; lcu_global_cleanup(); }
	ENSURES(!ti && !xi, "cleaned up in the end");
}
