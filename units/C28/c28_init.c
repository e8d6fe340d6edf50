/*VF
kind: full
src: src/log/file_logger.c
functions: file_logger_init
unwind: 130
nobmc: 1
san: nonat
weight: 2
assumes: msg_queue_handler_create by its contract (discharged in C26) | strreplace and strlcpy by their contracts (C04, C05); the folder name fits its array and is NUL terminated
*/
#include "vf.h"
#include "nolog.h"
#include "common_macro.h"
#include "mem/strings.h"
#include "ring/msg_queue_handler.h"
#include <malloc.h>
#include <stdio.h>
#include <stdarg.h>
#include <unistd.h>
#include "fl.inc"
static void *i_calloc(size_t a, size_t b); static void i_free(void *p); static char *i_repl(const char *s, const char *a, const char *b); static size_t i_lcpy(char *d, const char *s, size_t n);
#define free i_free
#define calloc i_calloc
#undef strreplace
#undef strlcpy
#define strreplace i_repl
#define strlcpy i_lcpy
#include "file/file_util.h"
#include "time/time_util.h"
#include "src/log/file_logger.c"
#undef free
#undef calloc
static void *blk[4]; static int nb, live; static char *rep; static msg_queue_handler Q; static int qobj, qmade; static void *qud; static int (*qfn)(queue_msg_t *, void *); static uint32_t qn;
static void *i_calloc(size_t a, size_t b) { ENSURES(nb < 3, "STUB calloc"); if (BOOL()) return NULL; char *p = vf_alloc(a * b); if (a * b == sizeof(struct file_logger_s)) memset(p, 0, sizeof(struct file_logger_s)); blk[nb++] = p; live++; return p; }
static void i_free(void *p) { if (p && p == rep) { rep = NULL; live--; return; } for (int i = 0; i < 3; i++) if (p && blk[i] == p) { blk[i] = NULL; live--; return; } ENSURES(p == NULL, "releases only what it allocated, once"); }
static char *i_repl(const char *s, const char *a, const char *b) { size_t l = strlen(s); rep = vf_alloc(128); live++; for (size_t i = 0; i <= l; i++) rep[i] = s[i] == '\\' ? '/' : s[i]; return rep; }
static size_t i_lcpy(char *d, const char *s, size_t n) { size_t l = strlen(s); ENSURES(n == 128 && l < 128, "STUB strlcpy"); for (size_t i = 0; i <= l; i++) d[i] = s[i]; return l; }
int file_util_mkdirs(const char *p) { return 0; } int time_util_get_time_str_for_file_name_current(char s[TIME_STR_SIZE], int tz) { return 0; } int time_util_zone_offset_seconds_to_utc() { return (int)RANGE(0, 24) * 3600 - 12 * 3600; }
msg_queue_handler msg_queue_handler_create(uint32_t n, msg_queue_handler_init_param_t *p) { qn = n; qud = p->user_data; qfn = p->fn_handle_msg; if (BOOL()) return NULL; qmade = 1; return Q = (msg_queue_handler)&qobj; }
void msg_queue_handler_destroy(msg_queue_handler *p) { } msg_q_code_e msg_queue_handler_push(msg_queue_handler q, queue_msg_t *m) { return 0; }
static void fl_emit(FILE *f, const char *p, uint64_t n) { } static FILE *fl_fopen(const char *name, const char *mode) { ENSURES(0, "no file before the first text"); return NULL; } static int fl_fclose(FILE *f) { return 0; }
void vf_harness(void)
{
	fl_reset(); nb = live = qmade = 0; rep = NULL; file_logger_cfg *cp = vf_alloc(sizeof *cp), c = *cp; size_t L = SZ(0, 127); c.log_folder_path[L] = 0; for (int i = 0; i < 127; i++) REQUIRES(i >= L || c.log_folder_path[i] != 0);
	size_t mx = c.one_piece_file_max_len, qs = c.log_queue_size; REQUIRES(qs < (1u << 22)); size_t k = SZ(0, 126); char ch = c.log_folder_path[k], last = L ? c.log_folder_path[L - 1] : 0; int ks = c.is_try_my_best_to_keep_log != 0; c.is_try_my_best_to_keep_log = ks; void *arg = c.lock.arg;
	file_logger_handle h = file_logger_init(BOOL() ? &c : NULL);
	if (!h) { ENSURES(live == 0, "a failed start leaves nothing behind"); ENSURES(!qmade, "nor a running writer"); REACH("not started"); return; }
	ENSURES(L >= 2 && qs >= 2 && qn == qs * 1024 && live == 2, "started"); ENSURES(qud == h && qfn == handle_log_queue_msg && h->msg_queue == Q, "the queue's callback is the line writer of this logger");
	ENSURES(h->cur_fp == NULL && h->msg_cache_p && (void *)h->msg_cache_p == blk[0] && h->cur_msg_obj_capacity <= 2048 && h->cur_msg_obj_capacity >= 1, "the storage's size is right and no file is open");
	ENSURES(h->cfg.one_piece_file_max_len == (mx < 64 ? 0 : mx), "the limit is the configured one (a tiny one is none)"); ENSURES(h->cfg.is_try_my_best_to_keep_log == ks && h->cfg.lock.arg == arg, "the configuration is kept");
	size_t l = strlen(h->cfg.log_folder_path); ENSURES(l <= 127 && h->cfg.log_folder_path[l - 1] == '/', "the folder ends with a separator and fits"); ENSURES(l == L || (l == L + 1 && last != '/' && last != '\\'), "a separator is added only when missing");
	if (k + 1 < L) ENSURES(h->cfg.log_folder_path[k] == (ch == '\\' ? '/' : ch), "the folder name is kept"); REACH("started");
}
