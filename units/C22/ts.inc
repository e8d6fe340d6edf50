/* the real time_util.c / time_rfc*.c over contracts for strftime, gettimeofday, gmtime_r, the rwlock and (deductive run) the calendar conversion (C21) */
#include "vf.h"
#include <time.h>
#include <sys/time.h>
#include <string.h>
#include "common_macro.h"
#include "thread/portable_thread.h"
#include "mem/strings.h"
#include "time/time_util.h"
typedef struct { int Y, m, d, H, M, S, w; } vf_civ;
#ifdef VF_NAT
static vf_civ civ(time_t t, int tz) { time_t l = t + tz * 3600L; struct tm x; gmtime_r(&l, &x); return (vf_civ){ x.tm_year + 1900, x.tm_mon, x.tm_mday, x.tm_hour, x.tm_min, x.tm_sec, x.tm_wday }; }
#else
int64_t __CPROVER_uninterpreted_civ(int64_t, int64_t, int64_t);
static int cv(int64_t t, int tz, int k, int lo, int hi) { int64_t v = __CPROVER_uninterpreted_civ(t, tz, k); __CPROVER_assume(v >= lo && v <= hi); return (int)v; }
static vf_civ civ(time_t t, int tz) { return (vf_civ){ cv(t, tz, 0, 0, 9999), cv(t, tz, 1, 0, 11), cv(t, tz, 2, 1, 31), cv(t, tz, 3, 0, 23), cv(t, tz, 4, 0, 59), cv(t, tz, 5, 0, 59), cv(t, tz, 6, 0, 6) }; }
/* contract of the conversion: the calendar fields are a function of the instant and the zone, each in its range (C21) */
static int vf_k_time_util_fast_second2date(const time_t *t, struct tm *lt, int tz) { vf_civ c = civ(*t, tz); lt->tm_year = c.Y - 1900; lt->tm_mon = c.m; lt->tm_mday = c.d; lt->tm_hour = c.H; lt->tm_min = c.M; lt->tm_sec = c.S; return 0; }
static struct tm *vf_gmtime_r(const time_t *t, struct tm *lt) { vf_civ c = civ(*t, 0); struct tm any; *lt = any; lt->tm_year = c.Y - 1900; lt->tm_mon = c.m; lt->tm_mday = c.d; lt->tm_hour = c.H; lt->tm_min = c.M; lt->tm_sec = c.S; lt->tm_wday = c.w; return lt; }
static const char *const WD[7] = { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" }, *const MN[12] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
static void dg(char *o, size_t *n, int v, int k) { for (int i = 3; i >= 0; i--) { int q = v; for (int j = 0; j < i; j++) q /= 10; if (i < k) o[(*n)++] = (char)('0' + q % 10); } }
static void tx(char *o, size_t *n, const char *s) { for (int i = 0; i < 3; i++) o[(*n)++] = s[i]; }
/* strftime by contract: the rendering if it fits with its terminator, otherwise 0 and nothing is known about the buffer */
static size_t vf_strftime(char *s, size_t max, const char *f, const struct tm *t)
{
	char o[64]; size_t n = 0;
	ENSURES(__CPROVER_w_ok(s, max), "strftime is told the size of its buffer");
	for (; *f; f++) {
		if (*f != '%') { o[n++] = *f; continue; }
		f++;
		if (*f == 'm') dg(o, &n, t->tm_mon + 1, 2); else if (*f == 'd') dg(o, &n, t->tm_mday, 2); else if (*f == 'H') dg(o, &n, t->tm_hour, 2); else if (*f == 'M') dg(o, &n, t->tm_min, 2); else if (*f == 'S') dg(o, &n, t->tm_sec, 2);
		else if (*f == 'Y') dg(o, &n, t->tm_year + 1900, 4); else if (*f == 'T') { dg(o, &n, t->tm_hour, 2); o[n++] = ':'; dg(o, &n, t->tm_min, 2); o[n++] = ':'; dg(o, &n, t->tm_sec, 2); }
		else if (*f == 'a') tx(o, &n, WD[t->tm_wday]); else if (*f == 'b') tx(o, &n, MN[t->tm_mon]); else if (*f == 'z') { o[n++] = '+'; for (int i = 0; i < 4; i++) o[n++] = '0'; }
		else ENSURES(0, "STUB strftime conversion");
	}
	if (n >= max) { for (size_t i = 0; i < max; i++) s[i] = (char)U8(); return 0; }
	for (size_t i = 0; i < n; i++) s[i] = o[i];
	s[n] = 0; return n;
}
static size_t vf_strlcpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < 32 && s[i]; i++) if (i + 1 < n) d[i] = s[i]; if (n) d[i < n ? i : n - 1] = 0; return i; }
#define strftime vf_strftime
#define gmtime_r vf_gmtime_r
#define strlcpy vf_strlcpy
#endif
static struct timeval now; static int vf_gettimeofday(struct timeval *t, void *z) { *t = now; return 0; }
#define gettimeofday vf_gettimeofday
static void num(char *o, int *n, int v, int k) { int p = 1; for (int i = 1; i < k; i++) p *= 10; for (; p; p /= 10) o[(*n)++] = (char)('0' + v / p % 10); }
/* the fixed-width rendering of an instant: 18 or 14 characters and the terminator */
static int want(char *o, struct timeval t, int tz, bool file)
{
	vf_civ c = civ(t.tv_sec, tz); int n = 0;
	num(o, &n, c.m + 1, 2); if (!file) o[n++] = '-';
	num(o, &n, c.d, 2); if (!file) o[n++] = ' ';
	num(o, &n, c.H, 2); if (!file) o[n++] = ':';
	num(o, &n, c.M, 2); if (!file) o[n++] = ':';
	num(o, &n, c.S, 2); o[n++] = '.'; num(o, &n, (int)(t.tv_usec / 1000), 3); o[n] = 0; return n;
}
