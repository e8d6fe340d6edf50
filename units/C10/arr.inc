#define VF_NW 4
#include "vf.h"
#include "nolog.h"
#include "common_macro.h"
#undef ASSERT
#define ASSERT(c) ENSURES(c, "assertion of the code: " #c)
static _Bool vf_oom; static uint64_t vf_msz; static size_t vf_es;
#ifdef VF_UNB
#define ES ((size_t)VF_CASE)
struct vf_hdr { size_t a, b, c; void *d; };
#define VF_HDR sizeof(struct vf_hdr)
static void *vf_arr; static size_t vf_arrend;
static void *vf_memcpy10(void *d, const void *s, size_t n)
{
	if (!vf_arr || !__CPROVER_same_object(d, vf_arr)) return vf_memcpy_c(d, s, n);
	__CPROVER_assert(__CPROVER_POINTER_OFFSET(d) >= VF_HDR, "ENSURES the array's header is not overwritten by elements");
	__CPROVER_assert(__CPROVER_POINTER_OFFSET(d) + n <= vf_arrend, "ENSURES no element is written outside the storage");
	struct vf_hdr h = *(struct vf_hdr *)vf_arr; vf_memcpy_c(d, s, n); *(struct vf_hdr *)vf_arr = h;
	return d;
}
static void *vf_realloc10(void *p, size_t n) { if (vf_oom) return 0; void *q = vf_realloc_c(p, n); __CPROVER_assume(q != 0); return q; }
#define memcpy vf_memcpy10
#define realloc vf_realloc10
#include <malloc.h>
static void *vf_calloc10(size_t a, size_t b) { vf_msz = (uint64_t)a * b; if (vf_oom) return 0; void *p = vf_alloc(a * b); *(struct vf_hdr *)p = (struct vf_hdr){ 0, 0, 0, 0 }; return p; }
#define calloc vf_calloc10
#else
#ifdef VF_CASE
#undef VF_CASE
#endif
#define ES vf_es
#include <malloc.h>
static void *vf_realloc10(void *p, size_t n)
{
	if (vf_oom) return 0;
	char *q = malloc(n); if (p) { for (size_t i = 0; i < vf_msz && i < n; i++) q[i] = ((char *)p)[i]; free(p); } return q;
}
#define realloc vf_realloc10
#ifdef VF_CBMC
static void *vf_memcpy10(void *d, const void *s, size_t n) { for (size_t i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i]; return d; }
#define memcpy vf_memcpy10
#endif
#endif
#include "src/data/array.c"
#undef memcpy
#undef realloc
#undef calloc
