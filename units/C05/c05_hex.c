/*VF
kind: loopinv
src: src/mem/strings.c
functions: str_char2hex
unwind: 2
bound: 8
bunwind: 19
nobmc: 1
assumes: snprintf is replaced by the C standard's behaviour for the two formats used (" %02x", "hex truncated(%zu):") in the verifier runs
*/
#include "vf.h"
static size_t vf_cap, vf_n, vf_w, vf_head; static char *vf_o; static const char *vf_s; static bool vf_trunc;
#ifdef VF_CBMC
#include <stdarg.h>
static char hexd(unsigned v) { return v < 10 ? '0' + v : 'a' + (v - 10); }
static int vf_snprintf(char *o, size_t n, const char *fmt, ...)
{
	va_list ap; va_start(ap, fmt);
	if (fmt[0] == ' ' && fmt[1] == '%' && fmt[2] == '0' && fmt[3] == '2' && fmt[4] == 'x' && fmt[5] == 0) {
		unsigned v = va_arg(ap, unsigned); va_end(ap);
		__CPROVER_assert(v < 256, "STUB %02x of a byte");
		if (n > 0) o[n > 3 ? 3 : n - 1] = 0;
		if (n > 1) o[0] = ' ';
		if (n > 2) o[1] = hexd(v >> 4);
		if (n > 3) o[2] = hexd(v & 15);
		return 3;
	}
	__CPROVER_assert(fmt[0] == 'h' && fmt[1] == 'e' && fmt[2] == 'x' && fmt[13] == '(', "STUB unknown format");
	size_t v = va_arg(ap, size_t); va_end(ap);
	size_t d = nondet_u64();
	__CPROVER_assume(d >= 1 && d <= 20);
	size_t t = 14 + d + 2;
	__CPROVER_assert(n == 0 || __CPROVER_w_ok(o, n < t + 1 ? n : t + 1), "ENSURES the mark is written inside the buffer");
	if (n > 0) { __CPROVER_havoc_object(o); o[n > t ? t : n - 1] = 0; o[0] = n > 1 ? 'h' : 0; }
	vf_trunc = true;
	return (int)t;
}
#define snprintf(o, n, f, x) vf_snprintf(o, n, f, (x) + 0)
#endif
static char hx(unsigned v) { return v < 10 ? '0' + v : 'a' + (v - 10); }
static bool ren(const char *q, char c) { unsigned u = (unsigned char)c; return q[0] == ' ' && q[1] == hx(u >> 4) && q[2] == hx(u & 15); }
#define strlcpy vf_strlcpy
#define strlcat vf_strlcat
#define VF_ENT_str_char2hex_1 vf_head = len_hex_str
#define VF_INV_str_char2hex_1 (chars_index <= chars_count && chars_count <= vf_n && len_hex_str == vf_head + chars_index * 3 && \
	len_hex_str < vf_cap && vf_o[len_hex_str] == 0 && IMPLIES(vf_w < chars_index, ren(vf_o + vf_head + vf_w * 3, vf_s[vf_w])) && \
	IMPLIES(vf_trunc && vf_cap > 1, vf_o[0] == 'h') && vf_head + chars_count * 3 < vf_cap)
#define VF_HAV_str_char2hex_1 HAVOBJ(vf_o)
#define VF_DEC_str_char2hex_1 (chars_count - chars_index)
#define VF_FRS_str_char2hex_1 VF_FRAME_SAVE(0, (const char *)(vf_s) - __CPROVER_POINTER_OFFSET(vf_s), __CPROVER_OBJECT_SIZE(vf_s))
#define VF_FRC_str_char2hex_1 VF_FRAME_CHECK(0)
#include "src/mem/strings.c"

void vf_harness(void)
{
	size_t n = SZ(0, 0x10000000), cap = SZ(0, 0x40000000);
	char *s = BUF(n ? n : 1), *o = BUF(cap ? cap : 1);
	vf_n = n; vf_cap = cap; vf_s = s; vf_o = o; vf_w = RANGE(0, n ? n - 1 : 0);
	size_t r = str_char2hex(o, cap, s, n);
	if (cap == 0) { ENSURES(r == 0, "no room, nothing written"); REACH("zero"); return; }
	ENSURES(r < cap && o[r] == 0, "NUL terminated inside the buffer at the returned length");
	if (n * 3 < cap) {
		ENSURES(r == n * 3, "three characters per byte when everything fits");
		ENSURES(IMPLIES(vf_w < n, ren(o + vf_w * 3, s[vf_w])), "byte w is rendered in two hex digits");
		REACH("fits");
	} else {
		if (cap > 1) ENSURES(o[0] == 'h', "truncation is marked");
#ifdef VF_UNB
		ENSURES(vf_trunc, "truncation is marked with the byte count");
		ENSURES(IMPLIES(vf_head + vf_w * 3 + 3 < cap && r > vf_head, vf_w < n && ren(o + vf_head + vf_w * 3, s[vf_w])), "all bytes that fit behind the mark are rendered");
#else
		char m[64]; int h = snprintf(m, sizeof m, "hex truncated(%zu):", n);
		ENSURES(strncmp(o, m, cap - 1 < (size_t)h ? cap - 1 : h) == 0, "mark");
		if ((size_t)h < cap) {
			ENSURES(r == h + (cap - 1 - h) / 3 * 3, "as many bytes as fit behind the mark");
			ENSURES(IMPLIES(h + vf_w * 3 + 3 < cap, ren(o + h + vf_w * 3, s[vf_w])), "bytes behind the mark are rendered");
		}
#endif
		REACH("truncated");
	}
}
