/*VF
kind: full
src: src/time/time_util.c
functions: time_util_fast_second2date
unwind: 2
nobmc: 1
fuzz: 10
san: undefined
timeout: 600
solver: lia
cases: 12 0 1 2 3 4 5 6 7 8 9 10 11
casejobs: 2
assumes: instants up to the year 9999
*/
#include "vf.h"
#include <time.h>
#include "common_macro.h"
#include "time/time_util.h"
#include "src/time/time_util.c"
#ifdef VF_NAT
int portable_rwlock_init(portable_rwlock_t *l, const void *a) { return 0; } int portable_rwlock_destroy(portable_rwlock_t *l) { return 0; } int portable_rwlock_rdlock(portable_rwlock_t *l) { return 0; } int portable_rwlock_wrlock(portable_rwlock_t *l) { return 0; } int portable_rwlock_unlock(portable_rwlock_t *l) { return 0; } size_t strlcpy(char *d, const char *s, size_t n) { return 0; }
#endif
#ifndef VF_CASE
#define VF_CASE 13
#endif
static int cum(int m) { return m == 0 ? 0 : m == 1 ? 31 : m == 2 ? 59 : m == 3 ? 90 : m == 4 ? 120 : m == 5 ? 151 : m == 6 ? 181 : m == 7 ? 212 : m == 8 ? 243 : m == 9 ? 273 : m == 10 ? 304 : 334; }
void vf_harness(void)
{
	
#ifdef VF_NAT
	static const time_t E[] = { 0, 951782400, 2147483647, 4102444800LL, 253402300799LL, 86400 }; time_t t = U8() % 3 ? (time_t)(U64() % 253402300800ULL) : E[U8() % 6] + U8() * 3600LL - (U8() % 2) * 1800 - U8();
#else
	time_t t = (time_t)U64();
#endif
	time_t t0 = t; REQUIRES(t >= 0 && t <= (time_t)253402300799LL); int tz = (int)(U8() % 25) - 12; struct tm lt;
	int r = time_util_fast_second2date(&t, &lt, tz);
	int y = lt.tm_year, m = lt.tm_mon, d = lt.tm_mday;
	int64_t q = t / 3600, h = q + tz + 24;   /* h: whole local hours since 1969-12-31 */
	REACH("converted");
	if (VF_CASE >= 12) {
		ENSURES(r == 0 && t == t0, "the instant is not changed"); ENSURES(m >= 0 && m < 12, "month"); ENSURES(y >= 69 && y <= 8100, "year");
		ENSURES(lt.tm_sec >= 0 && lt.tm_sec < 60 && lt.tm_min >= 0 && lt.tm_min < 60 && lt.tm_min * 60 + lt.tm_sec == t - 3600 * q, "minute and second");
		ENSURES(lt.tm_hour == h % 24, "hour"); 
		if (VF_CASE == 12) return;
	} else REQUIRES(m == VF_CASE);
	REQUIRES(m >= 0 && m < 12); REQUIRES(y >= 69 && y <= 8100); y += 1900;   /* discharged in case 12 */
	bool leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
	int dim = m == 1 ? 28 + leap : (m == 3 || m == 5 || m == 8 || m == 10) ? 30 : 31;
	ENSURES(d >= 1 && d <= dim, "day of month");
	ENSURES(t / 60 / 60 == q, "lemma: whole hours"); REQUIRES(t / 60 / 60 == q);
	int64_t p = y - 1, days = 365 * p + p / 4 - p / 100 + p / 400 + cum(m) + (leap && m > 1) + d - 719163;   /* days since 1970-01-01 */
	int64_t Y = m > 1 ? y : y - 1, mp = m > 1 ? m - 2 : m + 10, md = 365 * Y + Y / 4 - Y / 100 + Y / 400 + (153 * mp + 2) / 5 + d - 719469;   /* the same day counted in years that begin in March */
	ENSURES(y / 4 - p / 4 == (y % 4 == 0) && y / 100 - p / 100 == (y % 100 == 0) && y / 400 - p / 400 == (y % 400 == 0), "lemma: leap years"); REQUIRES(y / 4 - p / 4 == (y % 4 == 0) && y / 100 - p / 100 == (y % 100 == 0) && y / 400 - p / 400 == (y % 400 == 0));
	ENSURES(md == days, "lemma: years beginning in March"); REQUIRES(md == days);
	int64_t C = Y / 100, r100 = Y % 100; ENSURES(Y / 4 == 25 * C + r100 / 4 && Y / 400 == C / 4, "lemma: centuries"); REQUIRES(Y / 4 == 25 * C + r100 / 4 && Y / 400 == C / 4);
	int64_t h2 = t / 60 / 60 + tz + 24; ENSURES(h2 == h, "lemma: hours"); 
	int64_t ga = h2 / 24 - 1 + 2472632, gb = (ga * 4 + 3) / 146097, gc = -gb * 146097 / 4 + ga, gd = (gc * 4 + 3) / 1461;   /* ghost: century and year within it */
	ENSURES(C == gb - 48 && r100 == gd, "lemma: century and year"); REQUIRES(C == gb - 48 && r100 == gd);
	ENSURES(36524 * C + C / 4 + 365 * r100 + r100 / 4 + (153 * mp + 2) / 5 + d - 719469 == h2 / 24 - 1, "lemma: day by centuries"); REQUIRES(36524 * C + C / 4 + 365 * r100 + r100 / 4 + (153 * mp + 2) / 5 + d - 719469 == h / 24 - 1);
	ENSURES(md == h / 24 - 1, "year, month and day denote the day");
}
