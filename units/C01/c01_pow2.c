/*VF
kind: full
functions: integer_is_power_of_two integer_roundup_pow_of_two integer_rounddown_pow_of_two
unwind: 34
bunwind: 34
*/
#include "vf.h"
#include "src/data/integer.c"

/* specification: the powers of two the library recognises are 2^1 .. 2^31 */
static bool spec_pow(uint32_t i)
{
	for (unsigned e = 1; e < 32; e++) if (i == (1U << e)) return true;
	return false;
}

void vf_harness(void)
{
	uint32_t i = U32();
	unsigned e = (unsigned)RANGE(1, 31);          /* arbitrary power to compare against */
	uint32_t p = 1U << e;

	ENSURES(integer_is_power_of_two(i) == spec_pow(i), "is_power_of_two(i) <=> i in {2,4,...,2^31}");

	uint32_t up = integer_roundup_pow_of_two(i);
	if (i == 0 || i > 0x80000000U) ENSURES(up == 0, "roundup is 0 for 0 and when no power fits");
	else {
		ENSURES(spec_pow(up) && up >= i, "roundup returns a power of two not below i");
		ENSURES(!(p >= i) || up <= p, "roundup returns the smallest such power");
	}
	uint32_t dn = integer_rounddown_pow_of_two(i);
	if (i < 2) ENSURES(dn == 0, "rounddown is 0 below 2");
	else {
		ENSURES(spec_pow(dn) && dn <= i, "rounddown returns a power of two not above i");
		ENSURES(!(p <= i) || dn >= p, "rounddown returns the largest such power");
	}
	REACH("pow2");
}
