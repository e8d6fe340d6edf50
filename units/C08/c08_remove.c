/*VF
kind: loopinv
src: src/data/hashmap.c
functions: hashmap_remove hashKey calculateIndex equalKeys
defs: -DGET=3
unwind: 26
san: address
cbmcflags: --no-signed-overflow-check --no-undefined-shift-check
assumes: keys that compare equal have equal hashes, and each key is stored once in the chain | signed overflow in the hash mixing wraps (two's complement)
*/
#define VF_INV_hashmap_remove_1 ({ LIDX(p) <= vf_n && LIDX(p) <= vf_f && ret == 0 && vf_nfree == 0; })
#define VF_HAV_hashmap_remove_1 p = HAVL(), ret = 0, current = 0
#define VF_DEC_hashmap_remove_1 (vf_n - LIDX(p))
#define VF_FRS_hashmap_remove_1 vf_frs()
#define VF_FRC_hashmap_remove_1 vf_frc()
#include "ops1.inc"
