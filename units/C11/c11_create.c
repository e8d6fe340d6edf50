/*VF
kind: full
functions: RingBuffer_create RingBuffer_create_with_mem RingBuffer_destroy RingBuffer_clear pri_roundup_pow_of_two pri_is_power_of_2
unwind: 34
nobmc: 1
natdefs: -DVF_RINGSMALL
*/
#include "vf.h"
#include "nolog.h"
#ifdef VF_CBMC
static _Bool vf_oom; static uint64_t vf_callocsz;
static void *vf_calloc(size_t a, size_t b) { vf_callocsz = (uint64_t)a * b; return vf_oom ? (void *)0 : vf_alloc(a * b); }
#define calloc vf_calloc
#endif
#include "src/ring/ringbuffer.c"
static bool pow2(uint64_t v) { return v && !(v & (v - 1)); }
void vf_harness(void)
{
	uint32_t hs = sizeof(struct __ring_buffer_t);
	bool own = BOOL(), clr = BOOL();
#ifdef VF_CBMC
	uint32_t n = RANGE(0, 0xffffffffU); vf_oom = BOOL();
#else
	uint32_t n = RANGE(0, 70000); (void)BOOL();
#endif
	void *mem = NULL; ring_buffer_handle h;
	if (own) h = RingBuffer_create(n);
	else { mem = vf_alloc(n ? n : 1); h = RingBuffer_create_with_mem(mem, n); }
	if (!h) {
#ifdef VF_CBMC
		ENSURES(n < 4 + (own ? 0 : hs) || vf_oom || (own && n > 0x80000000U), "refused only when too small, too large or out of memory");
#else
		ENSURES(n < 4 + (own ? 0 : hs), "refused only when too small");
#endif
		REACH("refused");
		return;
	}
	uint64_t c = RingBuffer_real_capacity(h), room = n - (own ? 0 : hs);
	ENSURES(pow2(c) && c >= 2, "capacity is a power of two");
	if (own) ENSURES(c >= n && c / 2 < n, "capacity is the next power of two");
	else ENSURES(c <= room && c > room / 2 && h == mem && h->buf >= (char *)mem + hs && (uint64_t)(h->buf - (char *)mem) + c <= n, "capacity is the largest power of two that fits the given memory, beside the header");
#ifdef VF_CBMC
	if (own) ENSURES((uint64_t)(h->buf - (char *)h) >= hs && (uint64_t)(h->buf - (char *)h) + c <= vf_callocsz, "storage lies in the allocated block");
#else
	if (own) memset(h->buf, 1, c);
#endif
	ENSURES(RingBuffer_available_read(h) == 0 && RingBuffer_available_write(h) == c && RingBuffer_is_empty(h) && !RingBuffer_is_full(h), "starts empty");
	h->out = U32(); h->in = h->out + (uint32_t)RANGE(0, c);
	if (clr) { RingBuffer_clear(h); ENSURES(RingBuffer_available_read(h) == 0 && RingBuffer_available_write(h) == c, "clear empties the ring"); }
	ring_buffer_handle g = h;
	RingBuffer_destroy(&g);
	ENSURES(g == NULL, "destroy clears the handle");
	RingBuffer_destroy(&g);
	REACH("create");
}
