/*VF
kind: loopinv
src: src/file/file_util.c
functions: file_util_append_slash_on_path_if_needed
unwind: 2
bound: 6
bunwind: 12
assumes: strnlen and strstr(path, "\\") by their contracts in the deductive run
*/
#include "fu.inc"
static char *vf_p; static size_t vf_size, vf_l, vf_w; static bool vf_bs;
#ifdef VF_UNB
static size_t k_strnlen(const char *p, size_t n) { __CPROVER_assert(p == vf_p && n == vf_size, "STUB strnlen of the path"); return vf_l; }
static char *k_strstr(const char *p, const char *q) { __CPROVER_assert(p == vf_p && q[0] == '\\' && !q[1], "STUB strstr of the path"); __CPROVER_assert(vf_l < vf_size, "ENSURES the path is only searched when it is terminated"); return vf_bs ? vf_p : NULL; }
#define strnlen k_strnlen
#define strstr k_strstr
#endif
static size_t vf_e;
#define VF_INV_file_util_append_slash_on_path_if_needed_1 (path_len <= vf_l && IMPLIES(path_len <= vf_w && vf_w < vf_l, vf_p[vf_w] == ' ') && (vf_e = path_len, 1))
#define VF_HAV_file_util_append_slash_on_path_if_needed_1 ((void)0)
#define VF_DEC_file_util_append_slash_on_path_if_needed_1 path_len
#include "src/file/file_util.c"
void vf_harness(void)
{
	vf_size = SZ(0, 0x100000000); vf_p = BUFA(vf_size ? vf_size : 1, "a /\\"); vf_l = RANGE(0, vf_size); vf_w = RANGE(0, vf_size); bool term = BOOL();
	if (term && vf_size) { REQUIRES(vf_l < vf_size); vf_p[vf_l] = 0; } else { REQUIRES(vf_l == vf_size); }
	if (vf_size) { if (vf_l) REQUIRES(vf_p[0] != 0); if (vf_w < vf_l) REQUIRES(vf_p[vf_w] != 0); }
#ifdef VF_UNB
	vf_bs = vf_l && BOOL(); if (vf_w < vf_l && vf_p[vf_w] == '\\') REQUIRES(vf_bs);
#else
	for (size_t i = 0; i < vf_l; i++) REQUIRES(vf_p[i] != 0);
	vf_bs = false; for (size_t i = 0; i < vf_l; i++) vf_bs |= vf_p[i] == '\\';
#endif
	char c0 = vf_size && vf_w < vf_size ? vf_p[vf_w] : 0; bool null = BOOL() && BOOL(); char *arg = null ? NULL : vf_p;
	int r = file_util_append_slash_on_path_if_needed(arg, vf_size);
	char sl = vf_bs ? '\\' : '/';
	if (null || vf_size < 3 || vf_l == 0) { ENSURES(r < 0, "nothing to append to"); if (vf_size && vf_w < vf_size) ENSURES(vf_p[vf_w] == c0, "refused without effect"); return; }
#ifndef VF_UNB
	size_t e = vf_l; if (vf_l < vf_size) { size_t k; vf_e = 0; for (k = vf_l; k > 0; k--) if (1) { if (k - 1 == vf_w && c0 != ' ') break; if (k - 1 != vf_w && vf_p[k - 1] != ' ' && !(r == 0 && (vf_p[k - 1] == sl || !vf_p[k - 1]))) break; } }
	if (r < 0) { if (vf_w < vf_size) ENSURES(vf_p[vf_w] == c0, "refused without effect"); return; }
	size_t n = vf_nlen(vf_p, vf_size); ENSURES(n < vf_size && n >= 2 && vf_p[n - 1] != ' ' , "terminated"); ENSURES(vf_p[n - 1] == sl || vf_p[n - 1] == ' ' || vf_l == n, "ends with the separator"); if (vf_w < n - 1) ENSURES(vf_p[vf_w] == c0, "the path is kept");
	(void)e; return;
#else
	if (vf_l == vf_size) { ENSURES(r < 0, "an unterminated path is refused"); if (vf_w < vf_size) ENSURES(vf_p[vf_w] == c0, "without effect"); return; }
	size_t e = vf_e;   /* the path without trailing blanks */
	ENSURES(e <= vf_l && IMPLIES(vf_w >= e && vf_w < vf_l, c0 == ' ') && IMPLIES(e && vf_w == e - 1, c0 != ' '), "trailing blanks are ignored");
	if (e == 0) ENSURES(r < 0, "a blank path is refused");
	else if (vf_w == e - 1) ENSURES(r == 0 || (c0 != sl && e + 1 >= vf_size), "refused only when the separator is missing and does not fit");
	if (r < 0) { if (vf_w < vf_size) ENSURES(vf_p[vf_w] == c0, "refused without effect"); REACH("refused"); return; }
	ENSURES(r == 0, "0 for success");
	if (vf_w < e) ENSURES(vf_p[vf_w] == c0, "the path itself is kept");
	if (vf_w == e - 1 && c0 != sl) ENSURES(e + 1 < vf_size && vf_p[e] == sl && vf_p[e + 1] == 0, "one separator is appended");
	if (vf_w == e - 1 && c0 == sl) ENSURES(vf_p[vf_w] == sl, "not a second one"); 
	REACH("appended");
#endif
}
