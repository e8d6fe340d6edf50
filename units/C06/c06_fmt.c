/*VF
kind: full
functions: stringbuilder_appendf sb_ensure_space
unwind: 66
assumes: realloc by its contract | vsnprintf renders a fixed text T for a given format and arguments: returns its length (or an error) and stores at most n-1 of its characters and a NUL
*/
#ifdef VF_CBMC
#include <stdarg.h>
#include <stdio.h>
static int vf_vsn(char *o, size_t n);
#define vsnprintf(o, n, f, a) vf_vsn(o, n)
#endif
#include "sb.inc"
#ifdef VF_CBMC
static char *vf_txt; static size_t vf_txl; static _Bool vf_bad; static size_t vf_w;
static int vf_vsn(char *o, size_t n)
{
	if (vf_bad) return -1;
	if (n == 0) return (int)vf_txl;
	size_t k = vf_txl < n - 1 ? vf_txl : n - 1;
	__CPROVER_assert(__CPROVER_w_ok(o, k + 1), "ENSURES formatted text stays inside the storage");
#ifdef VF_UNB
	vf_memcpy_c(o, vf_txt, k);
#else
	for (size_t i = 0; i < k; i++) o[i] = vf_txt[i];
#endif
	o[k] = 0;
	return (int)vf_txl;
}
#endif
void vf_harness(void)
{
	stringbuilder_t *sb = mk();
	size_t N = SZ(0, 0x1000000), w = RANGE(0, N);
	char *s = BUF(N + 1);
	for (size_t i = 0; VF_IS_NATIVE && i < N; i++) if (!s[i]) s[i] = 'n';
	s[N] = 0;
#ifdef VF_CBMC
	vf_txt = s; vf_txl = N; vf_bad = BOOL();
	int bad = vf_bad;
#else
	(void)BOOL();
	int bad = 0;
#endif
#ifdef VF_UNB
	vf_wo[2] = vf_l0 + w;
#endif
	int r = stringbuilder_appendf(sb, "%s", s);
	if (r != 0) { ENSURES(!VF_IS_NATIVE || N == 0 || bad, "appending succeeds when memory is available"); valid(vf_l0); REACH("refused"); done(); return; }
	ENSURES(!bad && N > 0, "a formatting error is refused");
	valid(vf_l0 + N);
	if (w < N) ENSURES(sb->buffer[vf_l0 + w] == s[w], "formatted text appended");
	REACH("fmt");
	done();
}
