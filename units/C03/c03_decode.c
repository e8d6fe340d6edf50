/*VF
kind: loopinv
src: src/net/url_encoder_decoder.c
functions: lcu_url_decode
unwind: 2
bound: 6
bunwind: 17
weight: 3
*/
#include "vf.h"
static size_t vf_w, vf_pw, vf_pw1;   /* witness output index, source position of tokens w and w+1 */
static const char *vf_s; static char *vf_o; static size_t vf_n;
static bool plain(char c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '.' || c == '-' || c == '*' || c == '_'; }
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
/* length of the token at position p, 0: bad, -1: incomplete escape */
static int tlen(size_t p)
{
	char c = vf_s[p];
	if (c == '%') { if (vf_n - p < 3) return -1; return hexv(vf_s[p + 1]) >= 0 && hexv(vf_s[p + 2]) >= 0 ? 3 : 0; }
	return c == '+' || plain(c) ? 1 : 0;
}
static unsigned char tval(size_t p)
{
	char c = vf_s[p];
	return c == '+' ? ' ' : c == '%' ? (unsigned char)(hexv(vf_s[p + 1]) * 16 + hexv(vf_s[p + 2])) : (unsigned char)c;
}
#define GHOST_() ({ if (output_index == vf_w) vf_pw = input_index; if (output_index == vf_w + 1) vf_pw1 = input_index; 1; })
#define VF_INV_lcu_url_decode_1 (GHOST_() && input_index <= vf_n && output_index < out_buf_decoded_size && output_index <= input_index && \
	IMPLIES(output_index == 0, input_index == 0) && \
	IMPLIES(vf_w < output_index, vf_pw < input_index && vf_pw1 <= input_index && tlen(vf_pw) > 0 && vf_pw1 == vf_pw + tlen(vf_pw) && (unsigned char)vf_o[vf_w] == tval(vf_pw)) && \
	IMPLIES(vf_w == 0 && output_index > 0, vf_pw == 0))
#define VF_HAV_lcu_url_decode_1 HAVOBJ(out_buf_decoded); vf_pw = OFF(0x7fffffff); vf_pw1 = OFF(0x7fffffff)
#define VF_DEC_lcu_url_decode_1 (vf_n - input_index)
#define VF_FRS_lcu_url_decode_1 VF_FRAME_SAVE(0, (const char *)(vf_s) - __CPROVER_POINTER_OFFSET(vf_s), __CPROVER_OBJECT_SIZE(vf_s))
#define VF_FRC_lcu_url_decode_1 VF_FRAME_CHECK(0)
#include "src/net/url_encoder_decoder.c"

void vf_harness(void)
{
	size_t n = SZ(0, 0x20000000), cap = SZ(0, 0x7fffffff);
	char *s = BUFA(n ? n : 1, "aZ09.-*_%%%%%%%%+AFafGg12345 /");
	char *o = vf_alloc(cap ? cap : 1);
	char *last = NULL; bool wantlast = BOOL();
	vf_s = s; vf_o = o; vf_n = n;
	vf_w = RANGE(0, n ? n - 1 : 0);
	int r = lcu_url_decode(o, cap, s, n, wantlast ? &last : NULL);
	if (n < 1 || cap < 2) { ENSURES(r == -1, "empty input or no room for text and NUL is rejected"); REACH("reject"); return; }
	ENSURES(r >= 0 || r == -2, "documented results");
#ifndef VF_UNB
	size_t p = 0, k = 0; int t = 1;
	while (p < n && k < cap - 1 && (t = tlen(p)) > 0) { if (k == vf_w) vf_pw = p; p += t; k++; if (k == vf_w + 1) vf_pw1 = p; }
	ENSURES((r < 0) == (t == 0), "an error is reported exactly for a malformed escape or character");
	if (r >= 0) ENSURES((size_t)r == k, "every token up to the end, the destination limit or an incomplete escape is decoded");
	if (r >= 0 && wantlast) ENSURES(last == s + p, "stop position");
#endif
	if (r < 0) { REACH("bad"); return; }
	ENSURES((size_t)r < cap && o[r] == 0, "decoded bytes are NUL terminated inside the destination");
	if (vf_w < (size_t)r) {
		ENSURES((unsigned char)o[vf_w] == tval(vf_pw), "byte w is the value of its token");
		ENSURES(vf_pw1 == vf_pw + tlen(vf_pw), "tokens are adjacent");
		ENSURES(IMPLIES(vf_w == 0, vf_pw == 0), "first token at the start");
		if (wantlast && vf_w + 1 == (size_t)r) ENSURES(last == s + vf_pw1, "the reported stop position is the end of the last decoded token");
	}
	if (wantlast) {
		size_t e = last - s;
		ENSURES(e <= n, "stop position inside the text");
		ENSURES(e == n || (size_t)r == cap - 1 || tlen(e) == -1, "stops only at the end, a full destination or an incomplete escape");
	}
	REACH("decode");
}
