/*VF
kind: history
functions: stringbuilder_create stringbuilder_appendchar stringbuilder_appendstr stringbuilder_appendnstr stringbuilder_appendf stringbuilder_clear stringbuilder_destroy
fuzz: 20
*/
#include "vf.h"
#include "src/mem/stringbuilder.c"
void vf_harness(void)
{
	static char ref[200000]; size_t n = 0; ref[0] = 0;
	stringbuilder_t *sb = stringbuilder_create(RANGE(0, 40));
	ENSURES(sb, "create");
	size_t ops = SZ(0, 60);
	for (size_t k = 0; k < ops; k++) {
		size_t L = SZ(0, 600); char *s = BUF(L + 1);
		for (size_t i = 0; i < L; i++) if (!s[i]) s[i] = 'x';
		s[L] = 0;
		int r; size_t l;
		switch (RANGE(0, 5)) {
		case 0: { char c = (char)U8(); r = stringbuilder_appendchar(sb, c); ENSURES(r == 0, "append char"); ref[n++] = c; break; }
		case 1: r = stringbuilder_appendstr(sb, s); ENSURES((r == 0) == (L > 0), "append string"); memcpy(ref + n, s, L); n += L; break;
		case 2: l = SZ(1, 700); r = stringbuilder_appendnstr(sb, s, l); ENSURES((r == 0) == (L > 0), "append bounded string"); if (l > L) l = L; memcpy(ref + n, s, l); n += l; break;
		case 3: { int v = I32(); r = stringbuilder_appendf(sb, "%s|%d", s, v); ENSURES(r == 0, "append formatted"); n += sprintf(ref + n, "%s|%d", s, v); break; }
		case 4: if (U8() % 8 == 0) { ENSURES(stringbuilder_clear(sb) == 0, "clear"); n = 0; } break;
		}
		ref[n] = 0;
		ENSURES(stringbuilder_len(sb) == n, "length of the concatenation");
		ENSURES(memcmp(stringbuilder_to_string(sb), ref, n + 1) == 0, "text is the concatenation, NUL terminated");
	}
	stringbuilder_destroy(&sb);
	ENSURES(sb == NULL, "destroyed");
}
