/*VF
kind: loopinv
src: src/data/base64.c
functions: lcu_base64_encode lcu_base64_encode_buf_size
unwind: 3
bound: 8
bunwind: 5
weight: 5
*/
#include "vf.h"
static size_t vf_n, vf_g;            /* input length, witness group */
static const char *vf_s; static char *vf_o;
static const char al[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
#define BY(j) ((unsigned)(unsigned char)vf_s[j])
/* RFC 4648 rendering of group g of the input, with padding */
static bool enc_ok(size_t g)
{
	size_t b = g * 3; const char *q = vf_o + g * 4;
	unsigned have = vf_n - b >= 3 ? 3U : (unsigned)(vf_n - b);
	unsigned v = BY(b) << 16;
	if (have > 1) v |= BY(b + 1) << 8;
	if (have > 2) v |= BY(b + 2);
	return q[0] == al[(v >> 18) & 63] && q[1] == al[(v >> 12) & 63]
		&& q[2] == (have > 1 ? al[(v >> 6) & 63] : '=') && q[3] == (have > 2 ? al[v & 63] : '=');
}
#define VF_INV_lcu_base64_encode_1 (i % 3 == 0 && i <= src_buf_len && p == out_buf_encoded + i / 3 * 4 && IMPLIES(vf_g < i / 3, enc_ok(vf_g)))
#define VF_HAV_lcu_base64_encode_1 p = out_buf_encoded + OFF(0x7fffffff); HAVOBJ(out_buf_encoded)
#define VF_DEC_lcu_base64_encode_1 (src_buf_len - i)
#define VF_FRS_lcu_base64_encode_1 VF_FRAME_SAVE(0, (const char *)(vf_s) - __CPROVER_POINTER_OFFSET(vf_s), __CPROVER_OBJECT_SIZE(vf_s))
#define VF_FRC_lcu_base64_encode_1 VF_FRAME_CHECK(0)
#include "src/data/base64.c"

void vf_harness(void)
{
	size_t n = SZ(1, 0x40000000);
	char *s = BUF(n);
	int need = lcu_base64_encode_buf_size(n);
	ENSURES(need > 0 && (size_t)need == (n + 2) / 3 * 4 + 1, "size helper announces 4*ceil(n/3)+1");
	char *o = vf_alloc(need);
	vf_n = n; vf_s = s; vf_o = o;
	vf_g = RANGE(0, (n + 2) / 3 - 1);
	size_t w = RANGE(0, n - 1); char before = s[w];
	int r = lcu_base64_encode(o, s, n);
	ENSURES(r == need, "encode returns exactly the announced size");
	ENSURES(enc_ok(vf_g), "every group is the RFC 4648 encoding of its bytes");
	ENSURES(o[need - 1] == 0, "encoded text is NUL terminated");
	ENSURES(s[w] == before, "input unchanged");
	REACH("encode");
}
