/*VF
kind: loopinv
src: src/data/hashmap.c
functions: hashmap_get hashKey calculateIndex equalKeys hashmap_size
defs: -DGET=1
unwind: 26
san: address
cbmcflags: --no-signed-overflow-check --no-undefined-shift-check
assumes: keys that compare equal have equal hashes, and each key is stored once in the chain | signed overflow in the hash mixing wraps (two's complement)
*/
#define VF_INV_hashmap_get_1 ({ AIDX(entry) <= vf_n && AIDX(entry) <= vf_f && ret == 0; })
#define VF_HAV_hashmap_get_1 entry = vf_at(vf_K), ret = 0
#define VF_DEC_hashmap_get_1 (vf_n - AIDX(entry))
#define VF_FRS_hashmap_get_1 vf_frs()
#define VF_FRC_hashmap_get_1 vf_frc()
#include "ops1.inc"
