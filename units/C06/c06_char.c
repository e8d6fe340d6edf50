/*VF
kind: full
functions: stringbuilder_appendchar sb_ensure_space stringbuilder_len stringbuilder_to_string
unwind: 66
assumes: realloc by its contract: fails leaving the block alone, or returns a block of the new size with the old content
*/
#include "sb.inc"
void vf_harness(void)
{
	stringbuilder_t *sb = mk(); char c = (char)U8();
	int r = stringbuilder_appendchar(sb, c);
	if (r != 0) { ENSURES(!VF_IS_NATIVE, "appending succeeds when memory is available"); valid(vf_l0); REACH("refused"); return; }
	valid(vf_l0 + 1);
	ENSURES(sb->buffer[vf_l0] == c, "character appended");
	REACH("char");
	done();
}
