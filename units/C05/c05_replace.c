/*VF
kind: bounded
functions: strreplace
bound: 4
bunwind: 6
bunwindset: vf_harness.1:3,vf_harness.2:3
bounddoc: original up to 4 characters, pattern up to 2, replacement up to 2
fuzz: 8
*/
#include "vf.h"
static bool at(const char *s, const char *p) { size_t i = 0; while (p[i]) { if (s[i] != p[i]) return false; i++; } return true; }
#ifdef VF_CBMC
static char *vf_strstr(const char *s, const char *p)
{ for (size_t i = 0;; i++) { if (at(s + i, p)) return (char *)s + i; if (!s[i]) return 0; } }
#define strstr vf_strstr
static void *vf_copy(void *d, const void *q, size_t n) { for (size_t i = 0; i < n; i++) ((char *)d)[i] = ((const char *)q)[i]; return d; }
#define memcpy vf_copy
static char vf_mem[16];
static void *vf_malloc(size_t n) { __CPROVER_assert(n <= 16, "STUB size"); return vf_mem + (16 - n); } /* ends exactly at the object's end */
#define malloc vf_malloc
#endif
#define strlcpy vf_strlcpy
#define strlcat vf_strlcat
#include "src/mem/strings.c"
void vf_harness(void)
{
	size_t n = SZ(0, 30), np = RANGE(0, 2), nr = RANGE(0, 2);
#ifdef VF_CBMC
	char s[5]; for (int i = 0; i < 4; i++) s[i] = "abc"[RANGE(0, 2)];
#else
	char *s = BUFA(n + 1, "aaabb");
#endif
	char p[3] = "", r[4] = "";
	s[n] = 0;
	for (size_t i = 0; i < np; i++) p[i] = BOOL() ? 'a' : 'b';
	for (size_t i = 0; i < nr; i++) r[i] = "abc"[RANGE(0, 2)];
	char *q = strreplace(s, p, r);
	ENSURES(q != NULL, "allocation never fails here");
	size_t i = 0, o = 0;
	while (s[i]) {
		if (np && at(s + i, p)) { for (size_t k = 0; k < nr; k++) ENSURES(q[o + k] == r[k], "occurrence replaced"); o += nr; i += np; }
		else { ENSURES(q[o] == s[i], "rest copied"); o++; i++; }
	}
	ENSURES(q[o] == 0, "terminated");
#ifndef VF_CBMC
	(free)(q);
#endif
	REACH("replace");
}
