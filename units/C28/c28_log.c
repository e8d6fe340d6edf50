/*VF
kind: full
src: src/log/file_logger.c
functions: file_logger_log
unwind: 4
unwindset: fl_reset.0:6,fl_fprintf.0:14
nobmc: 1
san: nonat
assumes: msg_queue_handler_push by its contract (discharged in C26) | integer_roundup_pow_of_two by its contract (discharged in C01) | realloc/memcpy by the ISO C contracts
*/
#include "vf.h"
#include "nolog.h"
#include "common_macro.h"
#include "mem/strings.h"
#include "ring/msg_queue_handler.h"
#include <malloc.h>
#include <stdio.h>
#include <stdarg.h>
#include <unistd.h>
#include "fl.inc"
static void *fl_realloc(void *p, size_t n); static void *fl_memcpy(void *d, const void *s, size_t n); static void *fl_calloc(size_t a, size_t b); static void fl_free(void *p); static int fl_usleep(unsigned n);
#define realloc fl_realloc
#define memcpy fl_memcpy
#define calloc fl_calloc
#define free fl_free
#define usleep fl_usleep
#include "src/log/file_logger.c"
#undef realloc
#undef memcpy
#undef calloc
#undef free
static struct file_logger_s *h; static int held, acq, rel, pushes, succ, lostw, lockarg; static size_t off; static char byte, *text; static size_t len; static bool locks; static char *cache; static size_t cachen;
static int la(void *a) { ENSURES(a == &lockarg && !held, "the lock is taken once"); held = 1; acq++; return 0; }
static int lr(void *a) { ENSURES(a == &lockarg && held, "the lock is released once"); held = 0; rel++; return 0; }
static void *fl_realloc(void *p, size_t n) { ENSURES(p == cache && (held || !locks), "the storage changes only under the lock"); if (BOOL()) return NULL; cachen = n; return cache = vf_alloc(n); }
static void *fl_memcpy(void *d, const void *s, size_t n)
{
	ENSURES((char *)d >= cache && (size_t)((char *)d - cache) + n <= cachen, "the text is copied only inside the logger's own storage"); ENSURES((const char *)s >= text && (size_t)((const char *)s - text) + n <= len, "only the text is read"); ENSURES(held || !locks, "the storage changes only under the lock");
	size_t so = (size_t)((const char *)s - text); if (off >= so && off - so < n) ((char *)d)[off - so] = byte; return d;
}
static void *fl_calloc(size_t a, size_t b) { return NULL; } static void fl_free(void *p) { ENSURES(0, "releases nothing"); }
static int fl_usleep(unsigned n) { return 0; }
msg_queue_handler msg_queue_handler_create(uint32_t n, msg_queue_handler_init_param_t *p) { return NULL; } void msg_queue_handler_destroy(msg_queue_handler *p) { }
msg_q_code_e msg_queue_handler_push(msg_queue_handler q, queue_msg_t *m)
{
	ENSURES(q == h->msg_queue && (held || !locks), "queued under the lock"); ENSURES(!succ, "a text is queued once"); pushes++;
	ENSURES((char *)m == cache && m->obj_len >= 0 && (size_t)m->obj_len == len && sizeof *m + len <= cachen, "the message carries the whole text"); if (off < len) ENSURES(m->obj[off] == byte, "the message carries the text unchanged");
	uint8_t c = U8() % 3; if (c == 0) { succ = 1; return MSG_Q_CODE_SUCCESS; } return c == 1 ? MSG_Q_CODE_FULL : MSG_Q_CODE_NULL_HANDLE;
}
void vf_harness(void)
{
	fl_reset(); h = vf_alloc(sizeof *h); held = acq = rel = pushes = succ = 0; locks = BOOL(); h->cfg.lock.arg = &lockarg; h->cfg.lock.acquire = locks ? la : NULL; h->cfg.lock.release = locks ? lr : NULL;
	h->cur_msg_obj_capacity = RANGE(1, (uint64_t)1 << 31); cachen = sizeof(queue_msg_t) + h->cur_msg_obj_capacity; h->msg_cache_p = vf_alloc(cachen); cache = (char *)h->msg_cache_p; h->cfg.is_try_my_best_to_keep_log = BOOL(); FILE *fp = h->cur_fp = BOOL() ? FL_FP(0) : NULL;
	len = U64(); REQUIRES(len <= (uint64_t)1 << 34); text = vf_alloc(len ? len : 1); off = U64(); byte = (char)U8(); if (off < len) text[off] = byte;
	size_t cnt = h->cur_log_file_size_counter;
	int r = file_logger_log(h, text, len);
	ENSURES((r == MSG_Q_CODE_SUCCESS) == (succ == 1), "accepted means queued, anything else is reported");
	ENSURES(!held && acq == rel && acq <= 1, "every lock taken is released");
	ENSURES(len <= 0x7fffffff - 16 || r != 0, "a length that does not fit a message is refused");
	ENSURES((char *)h->msg_cache_p == cache, "the storage pointer"); ENSURES(sizeof(queue_msg_t) + h->cur_msg_obj_capacity <= cachen, "the storage's recorded size stays right");
	ENSURES(h->cur_fp == fp && h->cur_log_file_size_counter == cnt, "the current file belongs to the writer alone");
	if (succ) REACH("accepted"); else REACH("refused");
}
static void fl_emit(FILE *f, const char *p, uint64_t n) { ENSURES(f == FL_FP(1) && fl_f[1].open, "writes to the file it opened"); }
static FILE *fl_fopen(const char *name, const char *mode) { ENSURES(mode[0] == 'a', "the file of lost texts is appended to"); if (BOOL()) return NULL; fl_f[1].open++; return FL_FP(1); }
static int fl_fclose(FILE *f) { ENSURES(f == FL_FP(1) && fl_f[1].open == 1, "closes the file it opened"); fl_f[1].open = 0; return 0; }
uint32_t integer_roundup_pow_of_two(uint32_t n) { if (n == 0 || n > 0x80000000u) return U32(); uint32_t r = U32(); REQUIRES(r >= n && (r & (r - 1)) == 0 && r / 2 < n); return r; }
