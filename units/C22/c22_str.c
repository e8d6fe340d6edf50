/*VF
kind: full
src: src/time/time_util.c
functions: get_time_str format_time print_millisec time_util_get_time_str time_util_get_time_str_current time_util_get_time_str_for_file_name time_util_get_time_str_for_file_name_current
unwind: 34
cases: 0 1 2 3
casejobs: 4
nobmc: 1
san: nonat
timeout: 300
contractcalls: time_util_fast_second2date
assumes: strftime by the ISO C contract | time_util_fast_second2date by its contract (discharged in C21) | the rwlock gives mutual exclusion between a writer and everyone else | strlcpy by its contract (discharged in C04)
*/
#include "ts.inc"
#include "src/time/time_util.c"
#ifndef VF_CASE
#define VF_CASE 1
#endif
static int held; static int ncache;
static bool good(int k)      /* lock invariant: the cache is empty, or holds exactly the rendering of the instant and zone it names */
{
	time_cache_t *c = &g_time_caches[k]; if (!c->format_cache[0]) return true;
	if (c->tval.tv_usec < 0 || c->tval.tv_usec >= 1000000) return false;
	char o[24]; int n = want(o, c->tval, c->timezone_hour, k == 1); bool ok = true; for (int i = 0; i <= n; i++) ok = ok && c->format_cache[i] == o[i]; return ok;
}
static void others(int k) { g_time_caches[k].tval.tv_sec = (time_t)I64(); g_time_caches[k].tval.tv_usec = (suseconds_t)I64(); g_time_caches[k].timezone_hour = (int)I32(); for (int i = 0; i < 20; i++) g_time_caches[k].format_cache[i] = (char)U8(); }
static int which(portable_rwlock_t *l) { for (int k = 0; k < 2; k++) if (l == &g_time_caches[k].rw_lock) return k; ENSURES(0, "STUB lock"); return 0; }
int portable_rwlock_rdlock(portable_rwlock_t *l) { ENSURES(held == 0, "no lock held twice"); held = 1; int k = which(l); others(k); REQUIRES(good(k)); return 0; }
int portable_rwlock_wrlock(portable_rwlock_t *l) { ENSURES(held == 0, "no lock held twice"); held = 2; int k = which(l); others(k); REQUIRES(good(k)); return 0; }
/* after the release the others may change it: nothing read then can be trusted */
int portable_rwlock_unlock(portable_rwlock_t *l) { ENSURES(held, "unlock of a held lock"); held = 0; int k = which(l); ENSURES(good(k), "the cache is left empty or holding the rendering it names"); others(k); return 0; }
int portable_rwlock_init(portable_rwlock_t *l, const void *a) { return 0; } int portable_rwlock_destroy(portable_rwlock_t *l) { return 0; }
void vf_harness(void)
{
	held = 0; ENSURES(good(0) && good(1), "the caches start out empty"); now.tv_sec = (time_t)I64(); now.tv_usec = (suseconds_t)I64(); REQUIRES(now.tv_sec >= 0 && now.tv_sec <= 253402300799LL && now.tv_usec >= 0 && now.tv_usec < 1000000); int tz = (int)I32(); REQUIRES(tz >= -12 && tz <= 12);
	others(0); others(1);
	char *s = vf_alloc(TIME_STR_SIZE), o[24]; struct timeval t = now; int n;
	if (VF_CASE == 0) n = time_util_get_time_str(&t, s, tz); else if (VF_CASE == 1) n = time_util_get_time_str_current(s, tz); else if (VF_CASE == 2) n = time_util_get_time_str_for_file_name(&t, s, tz); else n = time_util_get_time_str_for_file_name_current(s, tz);
	int k = want(o, now, tz, VF_CASE >= 2);
	ENSURES(n == k && n == (VF_CASE >= 2 ? 14 : 18), "constant length"); for (int i = 0; i <= (VF_CASE >= 2 ? 14 : 18); i++) ENSURES(s[i] == o[i], "the rendering of this instant, whatever was formatted before");
	ENSURES(held == 0, "locks released"); ENSURES(t.tv_sec == now.tv_sec && t.tv_usec == now.tv_usec, "the argument is not changed");
	REACH("formatted");
}
