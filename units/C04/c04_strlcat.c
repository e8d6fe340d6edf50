/*VF
kind: loopinv
src: src/mem/strings.c
functions: strlcat
unwind: 2
bound: 3
bunwind: 7
assumes: strlen of the source is replaced by its contract (first NUL position) in the deductive run
*/
#include "vf.h"
static size_t vf_N, vf_w, vf_u, vf_size; static char *vf_d, *vf_d0; static const char *vf_s;
#ifdef VF_UNB
static size_t vf_strlen(const char *p)
{
	size_t r = nondet_u64();
	__CPROVER_assert(p == vf_s, "ENSURES strlen is taken of the source only");
	__CPROVER_assume(r <= vf_N && p[r] == 0 && IMPLIES(vf_w < r, p[vf_w] != 0));
	return r;
}
#define strlen vf_strlen
#endif
#define strlcpy vf_strlcpy
#define strlcat vf_strlcat
static char vf_du;  /* original destination byte at witness u */
static size_t vf_dl; /* where the scan of the destination stopped */
static bool vf_scan(char *d, size_t n)
{ size_t k = vf_size - n; return k <= vf_size && d == vf_d + k && IMPLIES(vf_u < k, vf_d[vf_u] != 0); }
#define VF_INV_strlcat_1 (n <= vf_size && vf_scan(d, n))
#define VF_HAV_strlcat_1 d = vf_d + OFF(vf_size)
#define VF_DEC_strlcat_1 n
#define VF_FRS_strlcat_1 VF_FRAME_SAVE(0, (const char *)(vf_s) - __CPROVER_POINTER_OFFSET(vf_s), __CPROVER_OBJECT_SIZE(vf_s)); VF_FRAME_SAVE(1, (const char *)(vf_d) - __CPROVER_POINTER_OFFSET(vf_d), __CPROVER_OBJECT_SIZE(vf_d))
#define VF_FRC_strlcat_1 VF_FRAME_CHECK(0); VF_FRAME_CHECK(1)
#define P_ ((size_t)(s - vf_s))
#define DP_ (dlen + (P_ < vf_size - dlen - 1 ? P_ : vf_size - dlen - 1))
#define VF_ENT_strlcat_2 vf_dl = dlen
#define VF_INV_strlcat_2 (dlen == vf_dl && dlen < vf_size && s >= vf_s && P_ <= vf_N && d == vf_d + DP_ && n == vf_size - DP_ && \
	IMPLIES(vf_w < P_, vf_s[vf_w] != 0) && IMPLIES(vf_w < P_ && dlen + vf_w < DP_, vf_d[dlen + vf_w] == vf_s[vf_w]) && \
	IMPLIES(vf_u < dlen, vf_d[vf_u] == vf_du))
#define VF_HAV_strlcat_2 s = vf_s + OFF(vf_N); d = vf_d + OFF(vf_size); HAVOBJ(vf_d)
#define VF_DEC_strlcat_2 (vf_N + 1 - P_)
#define VF_FRS_strlcat_2 VF_FRAME_SAVE(0, (const char *)(vf_s) - __CPROVER_POINTER_OFFSET(vf_s), __CPROVER_OBJECT_SIZE(vf_s))
#define VF_FRC_strlcat_2 VF_FRAME_CHECK(0)
#include "src/mem/strings.c"

void vf_harness(void)
{
	size_t N = SZ(0, 0x100000000), size = SZ(0, 0x100000000);
	char *s = BUFA(N + 1, "abc"), *d = BUFA(size ? size : 1, "abcdefghijklmnopq");
	s[N] = 0;
	if (size && BOOL()) d[RANGE(0, size - 1)] = 0;
	vf_N = N; vf_s = s; vf_d = d; vf_size = size;
	vf_w = RANGE(0, N); vf_u = RANGE(0, size ? size - 1 : 0);
	vf_du = d[vf_u];
#ifndef VF_UNB
	size_t dl = vf_nlen(d, size), sl = vf_nlen(s, N);
#endif
	size_t r = strlcat(d, s, size);
#ifdef VF_UNB
	size_t dl = vf_dl, sl = r - dl;
	if (vf_dl == 0 && !vf_cnt[1]) { dl = size; sl = r - size; }   /* second loop not entered: destination full */
	ENSURES(sl <= N && s[sl] == 0 && IMPLIES(vf_w < sl, s[vf_w] != 0), "appended length is strlen(src)");
	ENSURES(dl <= size && IMPLIES(vf_u < dl, vf_du != 0), "initial length is that of the first NUL inside size, or size");
	ENSURES(IMPLIES(vf_u == dl && dl < size, vf_du == 0), "and it is a NUL");
#endif
	ENSURES(r == dl + sl, "returns the untruncated length");
	if (vf_u < dl) ENSURES(d[vf_u] == vf_du, "existing content unchanged");
	if (dl == size) { if (size) ENSURES(d[vf_u] == vf_du, "unterminated destination is left alone"); REACH("full"); return; }
	size_t c = r < size - 1 ? r : size - 1;
	ENSURES(d[c] == 0, "terminated after the longest prefix that fits");
	ENSURES(IMPLIES(vf_w < sl && dl + vf_w < c, d[dl + vf_w] == s[vf_w]), "appended bytes equal the source");
	REACH("cat");
}
