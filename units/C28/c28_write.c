/*VF
kind: full
src: src/log/file_logger.c
functions: handle_log_queue_msg file_logger_deinit
unwind: 18
nobmc: 1
san: nonat
assumes: fopen/fprintf/fclose by the ISO C contracts; a write to an open file succeeds (a failing write is reported on stderr and the line is lost) | texts contain no NUL byte | file_util_mkdirs and the file-name time string by their contracts (C23, C22) | msg_queue_handler_destroy ends the writer thread (discharged in C26)
*/
#include "vf.h"
#include "nolog.h"
#include "common_macro.h"
#include "mem/strings.h"
#include "ring/msg_queue_handler.h"
#include <malloc.h>
#include <stdio.h>
#include <stdarg.h>
#include <unistd.h>
#include "fl.inc"
static void w_free(void *p);
#define free w_free
#define calloc(a, b) NULL
#define file_util_mkdirs fl_mkdirs
#define time_util_get_time_str_for_file_name_current fl_tname
#include "file/file_util.h"
#include "time/time_util.h"
#include "src/log/file_logger.c"
#undef free
static struct file_logger_s *h; static int hfree, mfree, qgone, newf; static uint64_t off, base, limit, size0; static char byte; static size_t len; static int whole, cur; static queue_msg_t *cache;
static void w_free(void *p) { if (p == h) { ENSURES(!hfree && qgone && !fl_f[0].open && !fl_f[1].open, "the logger goes last"); hfree = 1; } else { ENSURES(p == cache && !mfree && qgone, "the storage is released once, after the writer ended"); mfree = 1; } }
int fl_mkdirs(const char *p) { ENSURES(p == h->cfg.log_folder_path, "creates its folder"); return (int)RANGE(0, 1); }
int fl_tname(char s[TIME_STR_SIZE], int tz) { for (int i = 0; i < 14; i++) s[i] = '1'; s[14] = 0; return 14; }
msg_queue_handler msg_queue_handler_create(uint32_t n, msg_queue_handler_init_param_t *p) { return NULL; }
void msg_queue_handler_destroy(msg_queue_handler *p) { ENSURES(!qgone, "queue destroyed once"); qgone = 1; *p = NULL; }
msg_q_code_e msg_queue_handler_push(msg_queue_handler q, queue_msg_t *m) { return 0; }
static void fl_emit(FILE *f, const char *p, uint64_t n)
{
	ENSURES((f == FL_FP(0) && fl_f[0].open) || (f == FL_FP(1) && fl_f[1].open), "writes only to the current file"); int i = f == FL_FP(1); ENSURES(i == cur || fl_f[i].n == 0, "one line goes to one file"); cur = i;
	uint64_t at = fl_f[i].n; if (off >= at && off - at < n) ENSURES(p[off - at] == (off < len ? byte : '\n'), "the line is the text, unchanged, and one line feed"); fl_f[i].n += n;
}
static FILE *fl_fopen(const char *name, const char *mode) { ENSURES(!fl_f[0].open && !fl_f[1].open, "one file at a time"); newf++; if (fl_oom) return NULL; ENSURES(mode[0] == 'a' || (mode[0] == 'w' && mode[1] == 'x'), "an existing file's lines are not thrown away"); fl_f[1].open = 1; return FL_FP(1); }
static int fl_fclose(FILE *f) { int i = f == FL_FP(1); ENSURES((i || f == FL_FP(0)) && fl_f[i].open, "closes the current file, once"); fl_f[i].open = 0; fl_f[i].closes++; return 0; }
void vf_harness(void)
{
	fl_reset(); h = vf_alloc(sizeof *h); hfree = mfree = qgone = newf = 0; cur = -1; fl_oom = BOOL(); size0 = limit = 0;
	h->cfg.one_piece_file_max_len = limit = U64(); REQUIRES(limit == 0 || limit >= 64); bool had = BOOL(); h->cur_fp = had ? FL_FP(0) : NULL; fl_f[0].open = had; h->cur_log_file_size_counter = U64();
	size0 = had ? h->cur_log_file_size_counter : 0; REQUIRES(size0 < (uint64_t)1 << 60); if (had) REQUIRES(limit == 0 || size0 < limit);   /* the invariant: an open file is below the limit */
	len = (size_t)RANGE(0, 0x7fffffff - 16); queue_msg_t *m = vf_alloc(sizeof *m + len); m->obj_len = (int)len; off = U64(); byte = (char)U8(); REQUIRES(byte != 0); if (off < len) m->obj[off] = byte;
	int r = handle_log_queue_msg(m, h);
	ENSURES(r == 0, "the writer goes on"); uint64_t n = fl_f[0].n + fl_f[1].n;
	if (len == 0) ENSURES(n == 0 && newf == 0 && fl_f[0].open == had, "an empty text does nothing");
	else if (!had && fl_oom) { ENSURES(n == 0 && !h->cur_fp, "no file, no line"); REACH("no file"); }
	else {
		ENSURES(n == len + 1, "one whole line"); ENSURES(newf == !had && cur == !had, "a new file is started only when the current one was full");
		bool full = limit && size0 + len + 1 >= limit;
		ENSURES(fl_f[cur].open == !full && fl_f[cur].closes == full, "the file is closed exactly when it has reached the configured size");
		ENSURES(h->cur_fp == (full ? NULL : FL_FP(cur)), "the handle follows the file"); if (!full) ENSURES(h->cur_log_file_size_counter == size0 + len + 1, "the size is accounted exactly"); if (full) REACH("rotated"); else REACH("stays");
	}
	/* closing in any state */
	int c0 = fl_f[0].closes + fl_f[1].closes, o = fl_f[0].open + fl_f[1].open; cache = h->msg_cache_p = vf_alloc(16); h->msg_queue = (msg_queue_handler)&fl_nf; file_logger_handle x = h;
	ENSURES(file_logger_deinit(&x) == 0 && !x && hfree && mfree && qgone, "closing releases everything"); ENSURES(fl_f[0].closes + fl_f[1].closes == c0 + o && !fl_f[0].open && !fl_f[1].open, "closing closes the file exactly once");
	ENSURES(file_logger_deinit(&x) != 0 && file_logger_deinit(NULL) != 0, "closing again does nothing");
}
