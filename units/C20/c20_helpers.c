/*VF
kind: loopinv
src: src/file/ini_reader.c
functions: ini_rstrip ini_lskip ini_find_chars_or_comment ini_strncpy0 ini_reader_string
unwind: 2
bound: 6
bunwind: 12
cases: 5
assumes: isspace by its C-locale contract; strlen (first NUL) and strchr (membership) by contract in the deductive run
*/
#include "vf.h"
#include <stdio.h>
#include <string.h>
#include <ctype.h>
#include <stdlib.h>
#undef isspace
#undef strchr
#define ISSP(c) ((unsigned char)(c) == 32 || ((unsigned char)(c) >= 9 && (unsigned char)(c) <= 13))
static int k_isspace(int c) { return ISSP(c) ? 8192 : 0; }
#define isspace k_isspace
static char *vf_s, *vf_d; static size_t vf_n, vf_w, vf_k; static char vf_o, vf_o1; static const char *vf_cset; static _Bool *vf_in; static size_t vf_size; static int vf_num;
#ifdef VF_UNB
static size_t k_strlen(const char *p) { __CPROVER_assert(p == vf_s, "STUB strlen of the string"); return vf_n; }
static char *k_strchr(const char *p, int c) { if (p == vf_cset) return (unsigned char)c == 0 || vf_in[(unsigned char)c] ? (char *)p : 0; __CPROVER_assert(p[0] == ';' && p[1] == 0, "STUB strchr of the comment set"); return c == 0 || c == ';' ? (char *)p : 0; }
#define strlen k_strlen
#define strchr k_strchr
#endif
#define NONUL(k) ({ __CPROVER_assume(IMPLIES((k) < vf_n, vf_s[(k) < vf_n ? (k) : 0] != 0)); 1; }) /* 'first NUL at n', instantiated */
#define PO ((size_t)(p - s))
#define VF_INV_ini_rstrip_1 (p >= s && s == vf_s && PO <= vf_n && vf_s[vf_w] == (vf_w < PO ? vf_o : 0) && IMPLIES(vf_w >= PO && vf_w < vf_n, ISSP(vf_o)) && (vf_k = PO, 1))
#define VF_HAV_ini_rstrip_1 p = s + OFF(vf_n)
#define VF_DEC_ini_rstrip_1 PO
#define SO ((size_t)(s - vf_s))
#define VF_INV_ini_lskip_1 (s >= vf_s && SO <= vf_n && NONUL(SO) && IMPLIES(vf_w < SO, ISSP(vf_o)))
#define VF_HAV_ini_lskip_1 s = vf_s + OFF(vf_n)
#define VF_DEC_ini_lskip_1 (vf_n - SO)
#define INSET(c) (vf_cset && vf_in[(unsigned char)(c)])
#define VF_INV_ini_find_chars_or_comment_1 (s >= vf_s && SO <= vf_n && NONUL(SO) && (was_space != 0) == (SO > 0 && ISSP(vf_s[SO - 1])) && IMPLIES(vf_w < SO, !INSET(vf_o) && !(vf_w > 0 && vf_o == ';' && ISSP(vf_o1))))
#define VF_HAV_ini_find_chars_or_comment_1 s = vf_s + OFF(vf_n)
#define VF_DEC_ini_find_chars_or_comment_1 (vf_n - SO)
#define VF_INV_ini_strncpy0_1 (i <= vf_n && i <= size - 1 && NONUL(i) && IMPLIES(vf_w < i, vf_d[vf_w] == vf_o) && (vf_k = i, 1))
#define VF_HAV_ini_strncpy0_1 ((void)0)
#define VF_DEC_ini_strncpy0_1 (size - i)
#define CO ((size_t)(strp - str))
#define VF_INV_ini_reader_string_1 (strp >= vf_d && str == vf_d && CO <= vf_n && ctx_num_left == vf_n - CO && ctx_ptr == vf_s + CO && num >= 1 && (size_t)num + CO == (size_t)vf_num && IMPLIES(vf_w < CO, vf_d[vf_w] == vf_o && vf_o != '\n'))
#define VF_HAV_ini_reader_string_1 (strp = str + OFF(vf_num), ctx_ptr = vf_s + OFF(vf_n))
#define VF_DEC_ini_reader_string_1 ctx_num_left
#include "src/file/ini_reader.c"
static void text(size_t lo) { vf_n = SZ(lo, 0x100000000); vf_s = BUFA(vf_n + 1, "a =;\n]"); vf_w = RANGE(0, vf_n); vf_s[vf_n] = 0; if (vf_w < vf_n) REQUIRES(vf_s[vf_w] != 0); 
#ifndef VF_UNB
	for (size_t i = 0; i < vf_n; i++) REQUIRES(vf_s[i] != 0);
#endif
	vf_o = vf_s[vf_w]; vf_o1 = vf_w ? vf_s[vf_w - 1] : 0; if (vf_w && vf_n) REQUIRES(vf_o1 != 0); }
void vf_harness(void)
{
	text(0);
#if VF_CASE == 0
	if (vf_n) REQUIRES(vf_s[0] != 0);
#ifndef VF_UNB
	vf_k = vf_n; while (vf_k && ISSP(vf_s[vf_k - 1])) vf_k--;
#endif
	char *r = ini_rstrip(vf_s); size_t e = vf_k;
	ENSURES(r == vf_s && e <= vf_n, "the same string"); if (vf_w < e) ENSURES(vf_s[vf_w] == vf_o, "the text is kept"); else { ENSURES(vf_s[vf_w] == 0, "the rest is cut"); if (vf_w < vf_n) ENSURES(ISSP(vf_o), "only blanks are cut"); } if (e && vf_w == e - 1) { ENSURES(!ISSP(vf_o), "every trailing blank is cut"); REACH("kept"); }
#elif VF_CASE == 1
	char *r = ini_lskip(vf_s); ENSURES(r >= vf_s && (size_t)(r - vf_s) <= vf_n && vf_s[vf_w] == vf_o, "a position in the string, which is kept");
	size_t k = (size_t)(r - vf_s); if (vf_w < k) ENSURES(ISSP(vf_o), "only blanks are skipped"); if (vf_w == k) { ENSURES(!ISSP(vf_o), "all of them"); REACH("end"); } ENSURES(k == vf_n || *r != 0, "the end only at the end");
#elif VF_CASE == 2
	_Bool in[256]; char set[4]; vf_in = in; bool none = BOOL();
#ifndef VF_UNB
	set[0] = (char)U8(); set[1] = (char)U8(); set[2] = 0; for (int c = 0; c < 256; c++) in[c] = 0; REQUIRES(set[0] && set[1]); in[(unsigned char)set[0]] = in[(unsigned char)set[1]] = 1;
#endif
	vf_cset = none ? NULL : set; char *r = ini_find_chars_or_comment(vf_s, vf_cset);
	ENSURES(r >= vf_s && (size_t)(r - vf_s) <= vf_n && vf_s[vf_w] == vf_o, "a position in the string, which is kept"); size_t k = (size_t)(r - vf_s);
	bool stop = vf_w < vf_n && (INSET(vf_o) || (vf_w && vf_o == ';' && ISSP(vf_o1)));
	if (vf_w < k) ENSURES(!stop, "the first delimiter or inline comment"); if (vf_w == k && k < vf_n) { ENSURES(stop, "stops only there"); REACH("found"); }
#elif VF_CASE == 3
	vf_size = SZ(1, 0x100000000); vf_d = BUF(vf_size);
	char *r = ini_strncpy0(vf_d, vf_s, vf_size); 
#ifndef VF_UNB
	vf_k = vf_n < vf_size - 1 ? vf_n : vf_size - 1;
#endif
	ENSURES(r == vf_d && vf_k < vf_size && vf_d[vf_k] == 0 && vf_s[vf_w] == vf_o, "terminated within the size"); if (vf_w < vf_k) ENSURES(vf_d[vf_w] == vf_o, "the text"); ENSURES(vf_k == vf_n || vf_k == vf_size - 1, "as much as fits"); REACH("copied");
#else
	int sz = (int)RANGE(0, 0x7fffffff);
#ifndef VF_UNB
	REQUIRES(sz < 12);
#endif
	vf_num = sz; vf_d = BUF((size_t)sz + 1); vf_d[0] = 'x'; ini_reader_parse_string_ctx c = { vf_s, vf_n };
	char *r = ini_reader_string(vf_d, sz, &c);
	if (vf_n == 0 || sz < 2) { ENSURES(r == NULL && c.ptr == vf_s && c.num_left == vf_n, "the end of the text, or no room"); return; }
	size_t k = (size_t)(c.ptr - vf_s); ENSURES(r == vf_d && k >= 1 && k <= vf_n && c.num_left == vf_n - k && k < (size_t)sz, "the position advances by what was delivered, within the size"); ENSURES(vf_d[k] == 0, "terminated"); if (vf_w < k) { ENSURES(vf_d[vf_w] == vf_o, "the text in order"); if (vf_o == '\n') ENSURES(vf_w == k - 1, "one line at most"); }
	ENSURES(k == vf_n || k == (size_t)sz - 1 || vf_s[k - 1] == '\n', "a whole line unless it does not fit"); REACH("line");
#endif
}
