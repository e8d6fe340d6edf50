/*VF
kind: full
functions: stringbuilder_create stringbuilder_destroy stringbuilder_clear stringbuilder_len stringbuilder_to_string
unwind: 2
cbmcflags: --memory-leak-check --malloc-may-fail --malloc-fail-null
*/
#include "sb.inc"
void vf_harness(void)
{
	size_t n = VF_IS_NATIVE ? SZ(0, 300) : RANGE(0, 0x1000000);
	if (BOOL()) {
		stringbuilder_t *sb = vf_sb = stringbuilder_create(n);
		if (!sb) return;
		valid(0);
		ENSURES(sb->allocated >= 2 && sb->allocated >= n, "room as requested");
		REACH("create");
		stringbuilder_destroy(&sb);
		ENSURES(sb == NULL, "pointer cleared");
		stringbuilder_destroy(&sb);
		return;
	}
	stringbuilder_t *sb = mk();
	ENSURES(stringbuilder_clear(sb) == 0, "clear succeeds");
	valid(0);
	REACH("clear");
	done();
#ifdef VF_CBMC
	(free)(sb);
#endif
}
