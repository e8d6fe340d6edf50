/*VF
kind: history
functions: array_new array_append_ptr array_append_value array_at array_free
fuzz: 20
*/
#include "vf.h"
#include "nolog.h"
static bool vf_oom;
#include <malloc.h>
static void *vf_re(void *p, size_t n) { return vf_oom ? NULL : realloc(p, n); }
#define realloc vf_re
#include "src/data/array.c"
void vf_harness(void)
{
	static uint8_t m[400][40]; size_t es = RANGE(1, 39), n = 0, ops = SZ(0, 48) * 6; vf_oom = false;
	array_t *a = BOOL() ? array_new(es) : array_new_with_init_capacity(es, RANGE(0, 40)); ENSURES(a, "new");
	for (size_t k = 0; k < ops; k++) {
		vf_oom = U8() % 16 == 0; bool r; uint32_t x = U32();
		for (size_t b = 0; b < es; b++) m[n][b] = U8();
		if (es <= 4 && BOOL()) { memcpy(m[n], &x, es); r = array_append_value(a, x); } else r = array_append_ptr(a, m[n]);
		ENSURES(r || vf_oom, "append"); n += r;
		ENSURES(array_length(a) == n, "length");
		if (n) { size_t i = RANGE(0, n - 1); ENSURES(memcmp(array_at(a, i), m[i], es) == 0, "element"); ENSURES((char *)array_at(a, i) == (char *)array_ptr(a) + i * es, "contiguous"); }
	}
	for (size_t i = 0; i < n; i++) ENSURES(memcmp(array_at(a, i), m[i], es) == 0, "all elements");
	array_free(a);
}
