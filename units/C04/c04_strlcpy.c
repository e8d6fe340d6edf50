/*VF
kind: loopinv
src: src/mem/strings.c
functions: strlcpy
unwind: 2
bound: 6
bunwind: 16
*/
#include "vf.h"
static size_t vf_N, vf_w, vf_size; static char *vf_d; static const char *vf_s;
#define strlcpy vf_strlcpy
#define strlcat vf_strlcat
#define VF_INV_strlcpy_1 (n >= 1 && n <= vf_size && s == vf_s + (vf_size - n) && d == vf_d + (vf_size - n) && vf_size - n <= vf_N && \
	IMPLIES(vf_w < vf_size - n, vf_s[vf_w] != 0 && vf_d[vf_w] == vf_s[vf_w]))
#define VF_HAV_strlcpy_1 s = vf_s + OFF(vf_N); d = vf_d + OFF(vf_N); HAVOBJ(vf_d)
#define VF_DEC_strlcpy_1 n
#define VF_FRS_strlcpy_1 VF_FRAME_SAVE(0, (const char *)(vf_s) - __CPROVER_POINTER_OFFSET(vf_s), __CPROVER_OBJECT_SIZE(vf_s))
#define VF_FRC_strlcpy_1 VF_FRAME_CHECK(0)
#define VF_INV_strlcpy_2 (s >= vf_s && (size_t)(s - vf_s) <= vf_N && IMPLIES(vf_size > 0, (size_t)(s - vf_s) >= vf_size - 1) && \
	IMPLIES(vf_w < (size_t)(s - vf_s), vf_s[vf_w] != 0))
#define VF_HAV_strlcpy_2 s = vf_s + OFF(vf_N)
#define VF_DEC_strlcpy_2 (vf_N + 1 - (size_t)(s - vf_s))
#define VF_FRS_strlcpy_2 VF_FRAME_SAVE(0, (const char *)(vf_s) - __CPROVER_POINTER_OFFSET(vf_s), __CPROVER_OBJECT_SIZE(vf_s)); VF_FRAME_SAVE(1, (const char *)(vf_d) - __CPROVER_POINTER_OFFSET(vf_d), __CPROVER_OBJECT_SIZE(vf_d))
#define VF_FRC_strlcpy_2 VF_FRAME_CHECK(0); VF_FRAME_CHECK(1)
#include "src/mem/strings.c"

void vf_harness(void)
{
	size_t N = SZ(0, 0x100000000), size = SZ(0, 0x100000000);
	char *s = BUFA(N + 1, "abc"), *d = BUF(size ? size : 1);
	s[N] = 0;
	vf_N = N; vf_s = s; vf_d = d; vf_size = size;
	vf_w = RANGE(0, N);
	char d0 = d[0];
	size_t r = strlcpy(d, s, size);
	ENSURES(r <= N && s[r] == 0, "result is the position of a NUL of the source");
	ENSURES(IMPLIES(vf_w < r, s[vf_w] != 0), "and of the first one: the result is strlen(src)");
	if (size == 0) { ENSURES(d[0] == d0, "size 0 writes nothing"); REACH("zero"); return; }
	size_t c = r < size - 1 ? r : size - 1;
	ENSURES(d[c] == 0, "terminated after the longest prefix that fits");
	ENSURES(IMPLIES(vf_w < c, d[vf_w] == s[vf_w]), "copied bytes equal the source");
	REACH("copy");
}
