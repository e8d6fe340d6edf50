#define VF_RINGMAXE 30
#include "absring.inc"
#undef assert
#include "common_macro.h"
#undef ASSERT
#undef ASSERT_ABORT
#define ASSERT(c) ENSURES(c, "assertion of the code: " #c)
#define ASSERT_ABORT(c) ENSURES(c, "assertion of the code (abort): " #c)
#include "src/ring/autocover_buffer.c"
static int vf_acq, vf_rel, vf_arg;
static int acq(void *a) { ENSURES(a == &vf_arg && vf_acq == vf_rel, "lock taken with its argument, not twice"); vf_acq++; return 0; }
static int rel(void *a) { ENSURES(a == &vf_arg && vf_acq == vf_rel + 1, "lock released only when held"); vf_rel++; return 0; }
static auto_cover_buf_handle vf_ac(void)
{
	auto_cover_buf_handle h = vf_alloc(sizeof *h);
	h->ring = vf_ring(); h->ring_buffer_size = vf_cap;
	h->buf_lock.arg = &vf_arg; vf_acq = vf_rel = 0;
	bool l = BOOL(); h->buf_lock.acquire = l ? acq : 0; h->buf_lock.release = l ? rel : 0;
	return h;
}
