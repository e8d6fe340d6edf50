/*VF
kind: loopinv
src: src/data/list.c
functions: list_clear list_free list_free_node_
defs: -DOPLO=1 -DOPHI=2
unwind: 26
nobmc: 1
assumes: the allocator's free invalidates the node (its content becomes arbitrary)
*/
#include "rm.inc"
