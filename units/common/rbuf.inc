/* arbitrary valid ring_buf: any size >= 3, offsets anywhere below it */
#ifndef VF_NW
#define VF_NW 3
#endif
#include "vf.h"
#include "nolog.h"
#ifdef VF_UNB
#define memcpy vf_memcpy_c
#endif
#include "src/ring/ring_buf.c"
#undef memcpy
#ifndef VF_RBMAX
#define VF_RBMAX ((size_t)1 << 14)
#endif
static struct __ring_buf_t *vf_r; static size_t vf_rd0, vf_wr0, vf_N;
static size_t vf_wrapped(size_t x) { return x >= vf_N ? x - vf_N : x; }
#define LEN0 (vf_wr0 >= vf_rd0 ? vf_wr0 - vf_rd0 : vf_N - vf_rd0 + vf_wr0)
#define LEN() (vf_r->offset_write >= vf_r->offset_read ? vf_r->offset_write - vf_r->offset_read : vf_N - vf_r->offset_read + vf_r->offset_write)
static unsigned char vf_view(size_t i) { return (unsigned char)vf_r->pbuf[vf_wrapped(vf_rd0 + i)]; }
static struct __ring_buf_t *vf_ring(void)
{
	struct __ring_buf_t *r = vf_alloc(sizeof *r);
	vf_N = SZ(3, VF_RBMAX);
#ifdef VF_BND
	REQUIRES(vf_N <= VF_BOUND);
#endif
	r->need_free_myself = false; r->size = vf_N; r->pbuf = BUF(vf_N);
	r->offset_read = vf_rd0 = RANGE(0, vf_N - 1);
	r->offset_write = vf_wr0 = RANGE(0, vf_N - 1);
	return vf_r = r;
}
static void vf_ring_ok(void)
{
	ENSURES(vf_r->size == vf_N && vf_r->offset_read < vf_N && vf_r->offset_write < vf_N, "positions stay inside the storage");
	size_t rd = ring_buf_available_read(vf_r), wr = ring_buf_available_write(vf_r);
	ENSURES(rd == LEN(), "available read is what was written and not yet read");
	ENSURES(rd + wr == vf_N - 1, "one byte is always kept free");
}
