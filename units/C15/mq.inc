#define VF_RINGMAXE 31
#include "absring.inc"
#undef assert
#include "common_macro.h"
#undef ASSERT_ABORT
#define ASSERT_ABORT(c) ENSURES(c, "assertion of the code (abort): " #c)
#include "src/ring/msg_queue.c"
static uint32_t vf_hdr(uint32_t p) { return vf_now(p) | (uint32_t)vf_now(p + 1) << 8 | (uint32_t)vf_now(p + 2) << 16 | (uint32_t)vf_now(p + 3) << 24; }
static void vf_watch4(uint32_t p) { for (uint32_t k = 0; k < 4; k++) vf_watch(p + k); }
static void vf_put4(uint32_t p, uint32_t v) { for (uint32_t k = 0; k < 4; k++) vf_put(p + k, (unsigned char)(v >> (8 * k))); }
