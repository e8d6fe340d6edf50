/*VF
kind: full
functions: array_new array_new_with_init_capacity array_free
cases: 1 2 3 4 6 8 12 16 24 32
unwind: 66
nobmc: 1
assumes: calloc by its contract | the initial in-place storage holds at most 512 bytes in the deductive run | element sizes are enumerated, everything else is symbolic
*/
#include "arr.inc"
void vf_harness(void)
{
	vf_es = RANGE(1, 40);
	bool d = BOOL(); vf_oom = BOOL(); size_t es = ES, n = SZ(0, SIZE_MAX);
	array_t *a = d ? array_new(es) : array_new_with_init_capacity(es, n);
#ifdef VF_UNB
	bool fits = d || n < 4 || n <= (SIZE_MAX - sizeof *a) / es;
	ENSURES((a != NULL) == (!vf_oom && fits), "created unless memory is short or the size cannot be represented");
#endif
	if (!a) return;
	ENSURES(array_length(a) == 0 && a->element_size == es && a->data == a->internal_storage, "starts empty");
	ENSURES(a->capacity >= 4 && (d || a->capacity >= n), "room for what was asked for");
#ifdef VF_UNB
	ENSURES(vf_msz >= sizeof *a && a->capacity <= (vf_msz - sizeof *a) / es, "the allocated block holds the whole capacity");
#endif
	REACH("new");
	array_free(a); array_free(NULL);
}
