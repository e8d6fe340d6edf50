/*VF
kind: loopinv
src: src/data/base64.c
functions: lcu_base64_decode lcu_base64_decode_buf_size
unwind: 3
unwindset: pre_ok.0:5
bound: 9
bunwind: 12
bunwindset: pre_ok.0:5
weight: 5
*/
#include "vf.h"
static size_t vf_N, vf_g; static int vf_m = -1;
static const char *vf_s; static char *vf_o;
static unsigned dec6(char c)
{
	if (c >= 'A' && c <= 'Z') return c - 'A';
	if (c >= 'a' && c <= 'z') return c - 'a' + 26;
	if (c >= '0' && c <= '9') return c - '0' + 52;
	return c == '+' ? 62 : c == '/' ? 63 : 64;
}
#define D(j) dec6(vf_s[j])
#define OUT(j) ((unsigned)(unsigned char)vf_o[j])
/* bytes of group g, given that the text has m alphabet characters in a row */
static bool dec_ok(size_t g, size_t m)
{
	size_t c = g * 4, o = g * 3, have = m - c;
	bool ok = true;
	if (have >= 2) ok = ok && OUT(o) == (((D(c) << 2) | (D(c + 1) >> 4)) & 255);
	if (have >= 3) ok = ok && OUT(o + 1) == (((D(c + 1) << 4) | (D(c + 2) >> 2)) & 255);
	if (have >= 4) ok = ok && OUT(o + 2) == (((D(c + 2) << 6) | D(c + 3)) & 255);
	return ok;
}
static bool pre_ok(size_t i) /* witness group's characters seen so far are in the alphabet */
{
	bool ok = true;
	for (int j = 0; j < 4; j++) if (vf_g * 4 + j < i) ok = ok && D(vf_g * 4 + j) < 64;
	return ok;
}
#define POSN ((size_t)(bufin - (const unsigned char *)src_buf_encoded))
#define VF_INV_lcu_base64_decode_1 (POSN <= vf_N && pre_ok(POSN))
#define VF_HAV_lcu_base64_decode_1 bufin = (const unsigned char *)src_buf_encoded + OFF(vf_N)
#define VF_DEC_lcu_base64_decode_1 (vf_N + 1 - POSN)
#define VF_FRS_lcu_base64_decode_1 VF_FRAME_SAVE(0, (const char *)(vf_s) - __CPROVER_POINTER_OFFSET(vf_s), __CPROVER_OBJECT_SIZE(vf_s)); VF_FRAME_SAVE(1, (const char *)(vf_o) - __CPROVER_POINTER_OFFSET(vf_o), __CPROVER_OBJECT_SIZE(vf_o))
#define VF_FRC_lcu_base64_decode_1 VF_FRAME_CHECK(0); VF_FRAME_CHECK(1)
#define VF_ENT_lcu_base64_decode_2 vf_m = nprbytes
#define VF_INV_lcu_base64_decode_2 (POSN % 4 == 0 && nprbytes >= 0 && POSN + (size_t)nprbytes == (size_t)vf_m && (nprbytes > 0 || vf_m == 0) && \
	bufout == (unsigned char *)out_buf_plain + POSN / 4 * 3 && IMPLIES(vf_g * 4 < POSN, dec_ok(vf_g, vf_m)))
#define VF_HAV_lcu_base64_decode_2 bufin = (const unsigned char *)src_buf_encoded + OFF(vf_N); bufout = (unsigned char *)out_buf_plain + OFF(vf_N); HAVOBJ(out_buf_plain)
#define VF_DEC_lcu_base64_decode_2 nprbytes
#define VF_FRS_lcu_base64_decode_2 VF_FRAME_SAVE(0, (const char *)(vf_s) - __CPROVER_POINTER_OFFSET(vf_s), __CPROVER_OBJECT_SIZE(vf_s))
#define VF_FRC_lcu_base64_decode_2 VF_FRAME_CHECK(0)
#include "src/data/base64.c"

void vf_harness(void)
{
	size_t N = SZ(0, 0x40000000);
	char *s = BUFA(N + 1, "ABCDabcdxyzXYZ0129+/=");
	s[N] = 0;
	size_t len = N;
#ifndef VF_UNB
	len = strlen(s);
#endif
	vf_N = N; vf_s = s;
	int need = lcu_base64_decode_buf_size(len);
	ENSURES(need > 0 && (size_t)need == (len + 3) / 4 * 3 + 1, "decode size helper");
	char *o = vf_alloc(need); vf_o = o;
	vf_g = RANGE(0, len / 4);
	int r = lcu_base64_decode(o, s);
#ifndef VF_UNB
	for (vf_m = 0; D(vf_m) < 64; vf_m++) {}
#endif
	size_t m = vf_m, t = m % 4;
	ENSURES(vf_m >= 0 && m <= N, "stops within the text");
	ENSURES(D(m) == 64, "stops exactly at the first character outside the alphabet");
	ENSURES(IMPLIES(vf_g * 4 < m, pre_ok(m)), "everything before the stop is in the alphabet");
	ENSURES(r >= 0 && (size_t)r == m / 4 * 3 + (t >= 2 ? t - 1 : 0), "returns the number of decoded bytes");
	ENSURES(o[r] == 0, "decoded bytes are followed by NUL");
	ENSURES(IMPLIES(vf_g * 4 < m, dec_ok(vf_g, m)), "every group decodes to its bytes");
	REACH("decode");
}
