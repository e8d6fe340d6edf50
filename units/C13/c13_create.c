/*VF
kind: full
functions: ring_buf_create ring_buf_create_with_mem ring_buf_destroy ring_buf_clear ring_buf_available_read ring_buf_available_write
unwind: 4
nobmc: 1
modcalls: src/ring/ring_buf.c
assumes: remainder operator by its contract (exact for a < 2b)
*/
#define VF_NW 3
#include "vf.h"
#include "nolog.h"
#ifdef VF_CBMC
static _Bool vf_oom; static uint64_t vf_msz;
static void *vf_malloc(size_t a) { vf_msz = a; return vf_oom ? (void *)0 : vf_alloc(a); }
#include <malloc.h>
#define malloc vf_malloc
#endif
#include "src/ring/ring_buf.c"
#undef malloc
void vf_harness(void)
{
	uint64_t hs = sizeof(struct __ring_buf_t);
	bool own = BOOL(), clr = BOOL(); void *mem = NULL; ring_handle h;
#ifdef VF_CBMC
	uint64_t n = RANGE(0, (uint64_t)1 << 48); vf_oom = BOOL();
#else
	uint64_t n = RANGE(0, 70000); (void)BOOL();
#endif
	if (own) h = ring_buf_create(n); else { mem = vf_alloc(n ? n : 1); h = ring_buf_create_with_mem(mem, n); }
	if (!h) {
#ifdef VF_CBMC
		ENSURES(n < 3 + (own ? 0 : hs) || (own && vf_oom), "refused only when too small or out of memory");
#else
		ENSURES(n < 3 + (own ? 0 : hs), "refused only when too small");
#endif
		REACH("refused"); return;
	}
	uint64_t room = n - (own ? 0 : hs), off = (uint64_t)(h->pbuf - (char *)h);
	ENSURES(h->size <= room && h->size == room, "holds the size asked for, or what the memory leaves beside the header");
	ENSURES(off >= hs, "storage does not overlap the header");
#ifdef VF_CBMC
	ENSURES(off + h->size <= (own ? vf_msz : n), "storage lies in the block");
#else
	if (own) memset(h->pbuf, 1, h->size);
#endif
	ENSURES(ring_buf_available_read(h) == 0 && ring_buf_available_write(h) == h->size - 1, "starts empty, one byte kept free");
	h->offset_read = RANGE(0, h->size - 1); h->offset_write = RANGE(0, h->size - 1);
	if (clr) { ring_buf_clear(h); ENSURES(ring_buf_available_read(h) == 0 && ring_buf_available_write(h) == h->size - 1, "clear empties the ring"); }
	ring_handle g = h; ring_buf_destroy(&g);
	ENSURES(g == NULL, "destroy clears the handle");
	ring_buf_destroy(&g); ring_buf_destroy(NULL);
	REACH("create");
}
