/*VF
kind: loopinv
src: src/net/url_encoder_decoder.c
functions: lcu_url_encode
unwind: 2
bound: 5
bunwind: 12
weight: 3
*/
#include "vf.h"
static size_t vf_w, vf_pw, vf_pw1;   /* witness input index, output position of bytes w and w+1 */
static const char *vf_s; static char *vf_o;
static bool plain(char c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '.' || c == '-' || c == '*' || c == '_'; }
static size_t esz(char c) { return plain(c) || c == ' ' ? 1 : 3; }
static char hex(unsigned v) { return v < 10 ? '0' + v : 'A' + (v - 10); }
static bool tok(const char *q, char c)
{
	unsigned u = (unsigned char)c;
	if (plain(c)) return q[0] == c;
	if (c == ' ') return q[0] == '+';
	return q[0] == '%' && q[1] == hex(u >> 4) && q[2] == hex(u & 15);
}
#define GHOST_() ({ if (input_index == vf_w) vf_pw = output_index; if (input_index == vf_w + 1) vf_pw1 = output_index; 1; })
#define VF_INV_lcu_url_encode_1 (GHOST_() && input_index <= src_buf_plain_strlen && output_index < out_buf_encoded_size && \
	output_index >= input_index && output_index <= 3 * input_index && IMPLIES(input_index == 0, output_index == 0) && \
	IMPLIES(vf_w < input_index, vf_pw < output_index && vf_pw1 == vf_pw + esz(vf_s[vf_w]) && vf_pw1 <= output_index && tok(vf_o + vf_pw, vf_s[vf_w])) && \
	IMPLIES(vf_w == 0 && input_index > 0, vf_pw == 0))
#define VF_HAV_lcu_url_encode_1 HAVOBJ(out_buf_encoded); vf_pw = OFF(0x7fffffff); vf_pw1 = OFF(0x7fffffff)
#define VF_DEC_lcu_url_encode_1 (src_buf_plain_strlen - input_index)
#define VF_FRS_lcu_url_encode_1 VF_FRAME_SAVE(0, (const char *)(vf_s) - __CPROVER_POINTER_OFFSET(vf_s), __CPROVER_OBJECT_SIZE(vf_s))
#define VF_FRC_lcu_url_encode_1 VF_FRAME_CHECK(0)
#include "src/net/url_encoder_decoder.c"

void vf_harness(void)
{
	size_t n = SZ(0, 0x20000000), cap = SZ(0, 0x7fffffff);
	char *s = BUFA(n ? n : 1, "aZ09 .-*_%+/=\x80\xff~");
	char *o = vf_alloc(cap ? cap : 1);
	vf_s = s; vf_o = o;
	vf_w = RANGE(0, n ? n - 1 : 0);
	int r = lcu_url_encode(o, cap, s, n);
	if (n < 1 || cap < 2) { ENSURES(r == -1, "empty input or no room for text and NUL is rejected"); REACH("reject"); return; }
	if (r < 0) {
		ENSURES(cap < 3 * n + 1, "encoding fails only when the destination is smaller than 3n+1");
		ENSURES(r == -2 || r == -3, "documented errors");
		REACH("small");
		return;
	}
#ifndef VF_UNB
	size_t tot = 0;
	for (size_t i = 0; i < n; i++) { if (i == vf_w) vf_pw = tot; tot += esz(s[i]); if (i == vf_w) vf_pw1 = tot; }
	ENSURES((size_t)r == tot, "length is the sum of the encoded sizes");
#endif
	ENSURES((size_t)r < cap && o[r] == 0, "encoded text is NUL terminated inside the destination");
	ENSURES(vf_pw < (size_t)r && tok(o + vf_pw, s[vf_w]), "byte w is copied, '+' or %XX at its position");
	ENSURES(vf_pw1 == vf_pw + esz(s[vf_w]), "tokens are adjacent");
	ENSURES(IMPLIES(vf_w == 0, vf_pw == 0), "first token at the start");
	ENSURES(IMPLIES(vf_w == n - 1, vf_pw1 == (size_t)r), "returned length is the end of the last token");
	REACH("encode");
}
