/* arbitrary valid string builder: length < allocated, terminated, storage of exactly 'allocated' bytes */
#define VF_NW 3
#include "vf.h"
#ifdef VF_UNB
static const char *vf_T; static size_t vf_TL;     /* text the formatter / string argument stands for */
static size_t vf_strlen(const char *p) { __CPROVER_assert(p == vf_T, "STUB strlen of the appended string"); return vf_TL; }
static size_t vf_strnlen(const char *p, size_t n) { __CPROVER_assert(p == vf_T, "STUB strnlen of the appended string"); return n < vf_TL ? n : vf_TL; }
#define strlen vf_strlen
#define strnlen vf_strnlen
#define memcpy vf_memcpy_c
#define realloc vf_realloc_c
#endif
#include "src/mem/stringbuilder.c"
static stringbuilder_t *vf_sb; static size_t vf_l0, vf_u; static char vf_cu; /* old length, witness of old content */
static stringbuilder_t *mk(void)
{
	stringbuilder_t *sb = vf_alloc(sizeof *sb);
	size_t A = SZ(2, 0x1000000);
	size_t L = RANGE(0, A - 1);
	sb->buffer = (malloc)(A); REQUIRES(sb->buffer != NULL);
	sb->allocated = A; sb->length = L;
	for (size_t i = 0; VF_IS_NATIVE && i < L; i++) sb->buffer[i] = (char)(1 + U8() % 255);
	sb->buffer[L] = 0;
	vf_l0 = L; vf_u = RANGE(0, L ? L - 1 : 0);
	vf_cu = sb->buffer[vf_u];
#ifdef VF_UNB
	vf_wo[0] = vf_u; vf_wo[1] = L;
#endif
	return vf_sb = sb;
}
static void valid(size_t len)
{
	ENSURES(stringbuilder_len(vf_sb) == len, "length is that of the concatenation");
	const char *t = stringbuilder_to_string(vf_sb);
	ENSURES(vf_sb->length < vf_sb->allocated, "text and NUL fit the storage");
#ifdef VF_UNB
	__CPROVER_assert(__CPROVER_OBJECT_SIZE(vf_sb->buffer) == vf_sb->allocated && __CPROVER_rw_ok(vf_sb->buffer, vf_sb->allocated), "ENSURES the storage is as large as recorded");
#endif
	ENSURES(t[len] == 0, "text is NUL terminated");
	if (vf_u < vf_l0 && vf_u < len) ENSURES(t[vf_u] == vf_cu, "existing text is kept");
}
static void done(void) { (free)(vf_sb->buffer); }
