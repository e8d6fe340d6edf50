/*VF
kind: full
src: src/time/time_rfc1123.c src/time/time_rfc2822.c
functions: time_rfc1123 time_rfc2822 time_rfc2822_utc time_strf
unwind: 64
cases: 0 1 2
casejobs: 3
nobmc: 1
san: nonat
timeout: 200
assumes: strftime and gmtime_r by the ISO C / POSIX contracts in the C locale, the zone of a broken-down UTC time is +0000 | years 0 to 9999
*/
#include "ts.inc"
#include "src/time/time_rfc1123.c"
#include "src/time/time_rfc2822.c"
#ifndef VF_CASE
#define VF_CASE 0
#endif
void vf_harness(void)
{
	time_t t = (time_t)I64(), t0 = t; size_t cap = SZ(0, 64); char *s = cap ? vf_alloc(cap) : NULL, o[40]; int k = 0;
	int r = VF_CASE == 0 ? time_rfc1123(&t, s, cap) : VF_CASE == 1 ? time_rfc2822(&t, s, cap) : time_rfc2822_utc(&t, s, cap);
	vf_civ c = civ(t0, 0); for (int i = 0; i < 3; i++) o[k++] = WD[c.w][i];
	o[k++] = ','; o[k++] = ' '; num(o, &k, c.d, 2); o[k++] = ' '; for (int i = 0; i < 3; i++) o[k++] = MN[c.m][i];
	o[k++] = ' '; num(o, &k, c.Y, 4); o[k++] = ' '; num(o, &k, c.H, 2); o[k++] = ':'; num(o, &k, c.M, 2); o[k++] = ':'; num(o, &k, c.S, 2); o[k++] = ' ';
	static const char *Z[3] = { "GMT", "+0000", "UTC" }; for (const char *z = Z[VF_CASE]; *z; z++) o[k++] = *z; o[k++] = 0;
	size_t need = VF_CASE == 1 ? TIME_RFC2822_STR_SIZE : 30; ENSURES((size_t)k <= need, "the documented size is enough");
	if (!s || cap < need) { ENSURES(r == -1, "a small buffer is refused"); return; }
	ENSURES(r == 0 && t == t0, "success"); for (int i = 0; i < (VF_CASE == 1 ? 32 : 30); i++) ENSURES(s[i] == o[i], "weekday, day, month, year, time and zone");
	REACH("rendered");
}
