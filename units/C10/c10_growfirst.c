/*VF
kind: full
defs: -DMOVED=0 -DFULL=1
functions: array_append_ptr array_append_value array_at array_ptr array_length grow array_free
cases: 1 4 8 12 24
casejobs: 3
tcases: 1 2 4 8 16 32 64
unwind: 7
nobmc: 1
solver: minisat kissat
assumes: realloc and memcpy by their contracts (exact at the watched offsets) | the initial in-place storage holds at most 512 bytes in the deductive run | element sizes are enumerated, everything else is symbolic
*/
#include "append.inc"
