/*VF
kind: history
functions: time_util_get_time_str time_util_get_time_str_current time_util_get_time_str_for_file_name time_util_get_time_str_for_file_name_current time_rfc1123 time_rfc2822 time_rfc2822_utc
fuzz: 15
*/
#include "ts.inc"
#include <stdio.h>
#include "src/time/time_util.c"
#include "src/time/time_rfc1123.c"
#include "src/time/time_rfc2822.c"
#include "src/mem/strings.c"
static int held;
int portable_rwlock_rdlock(portable_rwlock_t *l) { ENSURES(held++ == 0, "no lock held twice"); return 0; } int portable_rwlock_wrlock(portable_rwlock_t *l) { ENSURES(held++ == 0, "no lock held twice"); return 0; } int portable_rwlock_unlock(portable_rwlock_t *l) { ENSURES(held-- == 1, "unlock of a held lock"); return 0; }
int portable_rwlock_init(portable_rwlock_t *l, const void *a) { return 0; } int portable_rwlock_destroy(portable_rwlock_t *l) { return 0; }
void vf_harness(void)
{
	memset(g_time_caches, 0, sizeof g_time_caches); held = 0; static const time_t B[] = { 0, 951782398, 1709164799, 2147483647, 4102444800LL, 1230768000 }; time_t base = B[U8() % 6]; int ops = (int)RANGE(1, 40), tz0 = (int)(U8() % 25) - 12;
	while (ops-- > 0) {
		struct timeval t = { base + U8() % 3, (long)(U64() % 1000000) }; if (U8() % 4 == 0) t.tv_usec = U8() % 2 ? 0 : 999999; int tz = U8() % 4 ? tz0 : (int)(U8() % 25) - 12, f = U8() % 2, n; now = t; char s[TIME_STR_SIZE + 8], o[40]; memset(s, 0x5a, sizeof s);
		bool cur = U8() % 4; if (cur) n = f ? time_util_get_time_str_for_file_name_current(s, tz) : time_util_get_time_str_current(s, tz); else n = f ? time_util_get_time_str_for_file_name(&t, s, tz) : time_util_get_time_str(&t, s, tz);
		int k = want(o, now, tz, f); ENSURES(n == k && held == 0, "constant length, locks released"); ENSURES(strcmp(s, o) == 0, "the rendering of this instant, whatever was formatted before"); for (int i = TIME_STR_SIZE; i < (int)sizeof s; i++) ENSURES(s[i] == 0x5a, "nothing beyond the documented size");
		time_t q = t.tv_sec; struct tm g; gmtime_r(&q, &g); char w[40], e[48]; size_t cap = 25 + U8() % 16; memset(w, 0x5a, sizeof w);
		int r = time_rfc1123(&q, w, cap); strftime(e, sizeof e, "%a, %d %b %Y %H:%M:%S GMT", &g); ENSURES((r == 0) == (cap >= 30) && (r || !strcmp(w, e)), "RFC 1123"); for (size_t i = cap; i < sizeof w; i++) ENSURES(w[i] == 0x5a, "nothing beyond the buffer");
		memset(w, 0x5a, sizeof w); r = time_rfc2822(&q, w, cap); strftime(e, sizeof e, "%a, %d %b %Y %T +0000", &g); ENSURES((r == 0) == (cap >= 32) && (r || !strcmp(w, e)), "RFC 2822"); for (size_t i = cap; i < sizeof w; i++) ENSURES(w[i] == 0x5a, "nothing beyond the buffer");
		memset(w, 0x5a, sizeof w); r = time_rfc2822_utc(&q, w, cap); strftime(e, sizeof e, "%a, %d %b %Y %T UTC", &g); ENSURES((r == 0) == (cap >= 30) && (r || !strcmp(w, e)), "RFC 2822 UTC"); for (size_t i = cap; i < sizeof w; i++) ENSURES(w[i] == 0x5a, "nothing beyond the buffer");
	}
}
