/* the real allocator.c and allocation_tracker.c over a raw heap (C allocator contract), a map contract (C08) and abort() */
#include "vf.h"
#include "common_macro.h"
#include <assert.h>
#undef ASSERT
#undef ASSERT_ABORT
#define ASSERT(e) ((e) ? (void)0 : vf_abort())
#define ASSERT_ABORT(e) ASSERT(e)
#undef EMERGENCY_LOG
#define EMERGENCY_LOG(...) ((void)0)
#define VF_NDEBUG_ASSERT
static void vf_abort(void);
#undef assert
#define assert(e) ((e) ? (void)0 : vf_abort())
