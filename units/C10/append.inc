#include "arr.inc"
void vf_harness(void)
{
	vf_es = RANGE(1, 40);
	size_t es = ES, cap = SZ(4, (size_t)1 << 20), len = RANGE(0, cap); bool moved = MOVED, val = BOOL(), full = FULL;
	if (full) len = cap; else REQUIRES(len < cap);
#if defined(VF_UNB) && !MOVED
	REQUIRES(cap <= 512 / es);
	char *blk = (malloc)(sizeof(array_t) + 512); REQUIRES(blk);
	array_t *a = (array_t *)(blk);
#else
	array_t *a = vf_alloc(sizeof *a + (moved ? 0 : es * cap));
#endif
	a->element_size = es; a->length = len; a->capacity = cap;
	vf_msz = cap * es;
	a->data = a->internal_storage;
	if (moved) { a->data = (malloc)(cap * es); REQUIRES(a->data); }
#ifndef VF_CBMC
	for (size_t i = 0; i < cap * es; i++) a->data[i] = U8();
#endif
	vf_oom = BOOL();
	size_t i = RANGE(0, len ? len - 1 : 0), b = RANGE(0, es - 1);
	uint8_t v = len ? a->data[i * es + b] : 0, *src = BUF(es < 4 ? 4 : es);
	uint32_t x = U32();
	if (val) REQUIRES(es <= 4);
#ifdef VF_UNB
	vf_wo[0] = i * es + b; vf_wo[1] = len * es + b; vf_wo[2] = VF_HDR + vf_wo[0]; vf_wo[3] = VF_HDR + vf_wo[1]; vf_arr = a; vf_arrend = VF_HDR + (moved ? 0 : es * cap);
	__CPROVER_assert(sizeof *a == VF_HDR, "STUB header layout");
#endif
	if (len) ENSURES(array_at(a, i) == a->data + i * es && array_ptr(a) == a->data, "element i");
	bool r = val ? array_append_value(a, x) : array_append_ptr(a, src);
	ENSURES(r == !(len == cap && vf_oom), "fails only when the array has to grow and memory is short");
	ENSURES(array_length(a) == len + r && a->element_size == es, "the length is the number of successful appends");
	if (len) ENSURES(((uint8_t *)array_at(a, i))[b] == v, "existing elements are intact");
	if (r) ENSURES(((uint8_t *)array_at(a, len))[b] == (val ? ((uint8_t *)&x)[b] : src[b]), "the new element is a byte-exact copy");
	ENSURES(a->length <= a->capacity && (r || a->capacity == cap), "capacity covers the length");
#ifdef VF_UNB
	ENSURES(__CPROVER_w_ok(a->data, a->capacity * es), "the storage holds the whole capacity");
#endif
	bool sep = a->data != a->internal_storage;
	ENSURES(sep == (moved || (r && len == cap)), "storage");
#ifndef VF_CBMC
	if (sep) (free)(a->data);
#endif
	REACH("append");
}
