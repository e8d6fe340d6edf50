/*VF
kind: loopinv
src: src/mem/strings.c
functions: strtrim
unwind: 2
bound: 6
bunwind: 20
nobmc: 1
assumes: strlen and strchr are replaced by their contracts (first NUL position; membership of a character set) in the deductive run
*/
#include "vf.h"
static size_t vf_L, vf_w, vf_a, vf_b; static char *vf_s; static const char *vf_cset; static _Bool *vf_in;
#ifdef VF_CBMC
static size_t vf_strlen(const char *p) { __CPROVER_assert(p == vf_s, "STUB strlen of the string"); return vf_L; }
static char *vf_strchr(const char *p, int c)
{
	__CPROVER_assert(p == vf_cset, "STUB strchr in the set");
	return (unsigned char)c == 0 || vf_in[(unsigned char)c] ? (char *)p : (char *)0;
}
static void *vf_memmove(void *d, const void *q, size_t n)
{	/* contract of memmove seen at one arbitrary byte */
	__CPROVER_assert(d == vf_s && q == vf_s + vf_a, "STUB memmove to the front");
	__CPROVER_assert(n <= vf_L - vf_a, "ENSURES the moved range lies inside the string");
	size_t k = vf_w - vf_a; char v = vf_s[vf_w];
	__CPROVER_havoc_object(d);
	if (vf_w >= vf_a && k < n) vf_s[k] = v;
	return d;
}
#ifdef VF_UNB
#define memmove vf_memmove
#define strlen vf_strlen
#define strchr vf_strchr
#endif
#endif
#define IN(c) (vf_in[(unsigned char)(c)])
#define strlcpy vf_strlcpy
#define strlcat vf_strlcat
/* s0 is a copy of the input: sp has passed only set characters, ep has dropped only set characters */
#define SP ((size_t)(sp - s))
#define EP ((size_t)(ep - s))
#define NONUL(k) ({ __CPROVER_assume(IMPLIES((k) < vf_L, vf_s[(k) < vf_L ? (k) : 0] != 0)); 1; }) /* the precondition 'first NUL at L', instantiated */
#define VF_INV_strtrim_1 (NONUL(SP) && sp >= s && SP <= vf_L && end == s + vf_L - 1 && ep == end && start == s && IMPLIES(vf_w < SP, IN(vf_s[vf_w])))
#define VF_HAV_strtrim_1 sp = s + OFF(vf_L)
#define VF_DEC_strtrim_1 (vf_L - SP)
#define VF_FRS_strtrim_1 VF_FRAME_SAVE(0, (const char *)(vf_s) - __CPROVER_POINTER_OFFSET(vf_s), __CPROVER_OBJECT_SIZE(vf_s))
#define VF_FRC_strtrim_1 VF_FRAME_CHECK(0)
#define VF_ENT_strtrim_2 vf_a = SP
#define VF_INV_strtrim_2 (NONUL(EP) && sp == s + vf_a && EP < vf_L && IMPLIES(vf_a < vf_L, EP >= vf_a) && IMPLIES(vf_a == vf_L, EP == vf_L - 1) && IMPLIES(vf_w > EP && vf_w < vf_L, IN(vf_s[vf_w])) && (vf_b = EP, 1))
#define VF_HAV_strtrim_2 ep = s + OFF(vf_L)
#define VF_DEC_strtrim_2 EP
#define VF_FRS_strtrim_2 VF_FRAME_SAVE(0, (const char *)(vf_s) - __CPROVER_POINTER_OFFSET(vf_s), __CPROVER_OBJECT_SIZE(vf_s))
#define VF_FRC_strtrim_2 VF_FRAME_CHECK(0)
#include "src/mem/strings.c"

void vf_harness(void)
{
	size_t L = SZ(0, 0x10000000);
	char *s = BUFA(L + 1, "ab \t.A");
	_Bool in[256];
	vf_s = s; vf_L = L; vf_w = RANGE(0, L); vf_in = in;
	char cset[8];
#ifdef VF_UNB
	REQUIRES(L >= 1);            /* the empty string is covered by the bounded and native runs */
	s[L] = 0;
	REQUIRES(IMPLIES(vf_w < L, s[vf_w] != 0));
#else
	for (size_t i = 0; i < L; i++) if (s[i] == 0) s[i] = ' ';
	s[L] = 0; char *s0 = vf_alloc(L + 1); memcpy(s0, s, L + 1);
	size_t nc = SZ(0, 3);
	const char pool[] = " \tAa.b";
	for (size_t i = 0; i < 7; i++) cset[i] = i < nc ? pool[RANGE(0, 5)] : 0;
	cset[7] = 0;
	for (int i = 0; i < 256; i++) in[i] = 0;
	for (size_t i = 0; i < nc; i++) in[(unsigned char)cset[i]] = 1;
#endif
	vf_cset = cset; char c0 = s[vf_w];
	strtrim(s, cset);
#ifdef VF_UNB
	size_t a = vf_a, b = vf_b;
	if (a == L) { ENSURES(IMPLIES(vf_w < L, IN(c0)), "empty only if every character is in the set"); ENSURES(s[0] == 0, "empty result"); REACH("all"); return; }
	ENSURES(IMPLIES(vf_w < a, IN(c0)), "only set characters are removed in front");
	ENSURES(IMPLIES(vf_w > b && vf_w < L, IN(c0)), "only set characters are removed behind");
	ENSURES(IMPLIES(vf_w == a || vf_w == b, !IN(c0)), "the first and last kept character are not in the set");
#else
	size_t a = 0, b = L;
	while (a < L && IN(s0[a])) a++;
	while (b > a && IN(s0[b - 1])) b--;
	if (a == b) { ENSURES(s[0] == 0, "empty result"); return; }
	b--;
#endif
	ENSURES(a <= b && b < L && s[b - a + 1] == 0, "result is terminated after the kept part");
	if (vf_w >= a && vf_w <= b) ENSURES(s[vf_w - a] == c0, "kept characters keep their order");
	REACH("trim");
}
