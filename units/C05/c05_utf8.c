/*VF
kind: loopinv
src: src/mem/strings.c
functions: strnutf8len strutf8len
unwind: 2
bound: 6
bunwind: 15
assumes: strlen is replaced by its contract (first NUL position) in the deductive run
*/
#include "vf.h"
static const char *vf_s; static size_t vf_N, vf_R, vf_max, vf_w; /* readable bytes R: NUL at N, or only max readable */
static size_t *vf_cnt8;                                     /* ghost: characters starting in s[0..k) */
#define CONT(c) (((unsigned char)(c) & 0xC0) == 0x80)
#ifdef VF_UNB
/* definition of the ghost count, instantiated where it is used */
#define DEFN(k) __CPROVER_assume(vf_cnt8[0] == 0 && IMPLIES((k) < vf_R, vf_cnt8[(k) + 1] == vf_cnt8[(k)] + (CONT(vf_s[(k) < vf_R ? (k) : 0]) ? 0 : 1)))
static size_t vf_strlen(const char *p)
{
	size_t r = nondet_u64();
	__CPROVER_assert(p == vf_s, "ENSURES strlen of the text");
	__CPROVER_assume(r <= vf_N && p[r] == 0 && IMPLIES(vf_w < r, p[vf_w] != 0));
	return r;
}
#define strlen vf_strlen
#endif
#define strlcpy vf_strlcpy
#define strlcat vf_strlcat
static size_t vf_end;
#define VF_INV_strnutf8len_1 ({ vf_end = chars_count; if (chars_count <= vf_R) DEFN(chars_count); chars_count <= vf_R && chars_count <= max_count && utf8str == vf_s + chars_count && \
	code_points == vf_cnt8[chars_count] && IMPLIES(vf_w < chars_count, vf_s[vf_w] != 0); })
#define VF_HAV_strnutf8len_1 utf8str = vf_s + OFF(vf_R)
#define VF_DEC_strnutf8len_1 (vf_R - chars_count)
#define VF_FRS_strnutf8len_1 VF_FRAME_SAVE(0, (const char *)(vf_s) - __CPROVER_POINTER_OFFSET(vf_s), __CPROVER_OBJECT_SIZE(vf_s))
#define VF_FRC_strnutf8len_1 VF_FRAME_CHECK(0)
#include "src/mem/strings.c"

void vf_harness(void)
{
	size_t N = SZ(0, 0x10000000), max = SZ(0, 0x10000000);
	bool full = BOOL();           /* whole string counted, or a range that need not be terminated */
	if (full) max = SIZE_MAX;
	size_t R = full || N < max ? N + 1 : max;      /* exactly the bytes the caller provides */
	char *s = BUFA(R ? R : 1, "ab\xc3\xa9\xe4\xbd\xa0");
	if (R == N + 1) s[N] = 0;
	vf_s = s; vf_N = N; vf_R = R == N + 1 ? N : R; vf_max = max;
	vf_w = RANGE(0, R);
#ifdef VF_UNB
	vf_cnt8 = vf_alloc((R + 2) * sizeof(size_t));
#endif
	size_t r = full ? strutf8len(s) : strnutf8len(s, max);
#ifdef VF_UNB
	size_t m = vf_end;
	ENSURES(m <= vf_R && (m == max || m == R || s[m] == 0), "the examined range ends at the limit or at the terminator");
	ENSURES(IMPLIES(vf_w < m, s[vf_w] != 0), "and not before");
	ENSURES(r == vf_cnt8[m], "counts exactly the characters of the range");
#else
	size_t c = 0;
	for (size_t i = 0; i < vf_R && i < max && s[i]; i++) c += !CONT(s[i]);
	ENSURES(r == c, "counts exactly the characters of the range");
#endif
	REACH("utf8");
}
