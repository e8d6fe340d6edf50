/*VF
kind: full
functions: stringbuilder_appendstr stringbuilder_appendnstr sb_ensure_space
unwind: 66
assumes: realloc, memcpy, strlen, strnlen by their contracts
*/
#include "sb.inc"
void vf_harness(void)
{
	stringbuilder_t *sb = mk();
	bool all = BOOL();
	size_t N = SZ(0, 0x1000000), len = SZ(0, 0x1000000), w = RANGE(0, N);
	char *s = BUF(N + 1);
	for (size_t i = 0; VF_IS_NATIVE && i < N; i++) if (!s[i]) s[i] = 'n';
	s[N] = 0;
	size_t want = all || len == 0 || len > N ? N : len;
#ifdef VF_UNB
	vf_T = s; vf_TL = N; vf_wo[2] = vf_l0 + w;
#endif
	int r = all ? stringbuilder_appendstr(sb, s) : stringbuilder_appendnstr(sb, s, len);
	if (r != 0) { ENSURES(!VF_IS_NATIVE || want == 0, "appending succeeds when memory is available"); valid(vf_l0); REACH("refused"); done(); return; }
	valid(vf_l0 + want);
	if (w < want) ENSURES(sb->buffer[vf_l0 + w] == s[w], "string bytes appended");
	REACH("str");
	done();
}
