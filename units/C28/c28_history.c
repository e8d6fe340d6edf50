/*VF
kind: history
functions: file_logger_init file_logger_log file_logger_deinit handle_log_queue_msg
fuzz: 20
san: none
*/
#include "vf.h"
#include "nolog.h"
#include <sys/types.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <stdio.h>
#include <stdarg.h>
#include "common_macro.h"
#include "coro.inc"
static int live; static void *m_(size_t n) { live++; return (malloc)(n); } static void *c_(size_t a, size_t b) { live++; return (calloc)(a, b); } static int rfail; static void *r_(void *p, size_t n) { if (rfail && U8() % 2) return NULL; if (!p) live++; return (realloc)(p, n); } static void f_(void *p) { if (p) live--; (free)(p); }
#include <malloc.h>
#include "src/thread/portable_thread_posix.c"
#include "src/data/integer.c"
#include "src/ring/ringbuffer.c"
#include "src/ring/msg_queue.c"
#define malloc(n) m_(n)
#define calloc(a, b) c_(a, b)
#define realloc(a, b) r_(a, b)
#define free(p) f_(p)
#include "src/ring/msg_queue_handler.c"
/* files in memory */
typedef struct { char name[256]; char d[16384]; int n, open, base; } mf; static mf fs[48]; static int nfs, clockms, nopen;
static mf *ff(FILE *f) { for (int i = 0; i < nfs; i++) if ((FILE *)&fs[i] == f) return &fs[i]; return NULL; }
static FILE *h_fopen(const char *n, const char *m) { int i; for (i = 0; i < nfs; i++) if (!strcmp(fs[i].name, n)) break; if (i == nfs) { REQUIRES(nfs < 48); nfs++; snprintf(fs[i].name, 256, "%s", n); fs[i].n = 0; fs[i].open = 0; } else if (m[0] == 'w') fs[i].n = 0; ENSURES(!fs[i].open, "a file is opened once at a time"); fs[i].open = 1; fs[i].base = fs[i].n; nopen++; return (FILE *)&fs[i]; }
static int h_fclose(FILE *f) { mf *x = ff(f); ENSURES(x && x->open, "closes an open file, once"); x->open = 0; nopen--; return 0; }
static int h_fprintf(FILE *f, const char *fmt, ...) { mf *x = ff(f); if (!x) return 0; ENSURES(x->open, "writes to an open file"); va_list ap; va_start(ap, fmt); int k = vsnprintf(x->d + x->n, sizeof x->d - (size_t)x->n, fmt, ap); va_end(ap); REQUIRES(x->n + k < (int)sizeof x->d); x->n += k; co_yield(); return k; }
static size_t h_fwrite(const void *p, size_t a, size_t b, FILE *f) { mf *x = ff(f); ENSURES(x && x->open, "writes to an open file"); REQUIRES(x->n + a * b < sizeof x->d); memcpy(x->d + x->n, p, a * b); x->n += (int)(a * b); return b; }
#undef fopen
#undef fclose
#define fopen h_fopen
#define fclose h_fclose
#define fprintf h_fprintf
#define fwrite h_fwrite
#define fputc(c, f) (h_fprintf(f, "%c", c))
#include "file/file_util.h"
#include "time/time_util.h"
#define file_util_mkdirs(p) 0
#define time_util_get_time_str_for_file_name_current(s, z) h_time(s)
#define time_util_zone_offset_seconds_to_utc() 0
static int h_time(char *s) { return sprintf(s, "%06d", clockms); }
static char *h_repl(const char *s, const char *a, const char *b) { live++; char *r = strdup(s); for (char *p = r; *p; p++) if (*p == '\\') *p = '/'; return r; }
#include "mem/strings.h"
#undef strreplace
#define strreplace h_repl
#include "src/log/file_logger.c"
static file_logger_handle L; static int held, lock_, n_acc, pieces; static char exp_[60000], out[60000]; static int ne; static size_t limit; static bool keep;
static int la(void *a) { ENSURES(a == &lock_ && !held, "lock"); held = 1; return 0; } static int lr(void *a) { ENSURES(held, "unlock"); held = 0; return 0; }
static void *user(void *p)
{
	file_logger_cfg c; memset(&c, 0, sizeof c); strcpy(c.log_folder_path, BOOL() ? "logs" : "a\\b/"); strcpy(c.log_file_name_prefix, "p_"); c.one_piece_file_max_len = limit; c.log_queue_size = 2 + U8() % 4; c.is_try_my_best_to_keep_log = keep; bool lk = BOOL(); if (lk) c.lock = (file_logger_lock_t){ &lock_, la, lr };
	L = file_logger_init(&c); ENSURES(L, "started");
	int n = U8() % 24;
	while (n-- > 0) {
		int l = U8() % 8 == 0 ? 2000 + U8() * 3 : U8() % 100; static char *t; t = (malloc)((size_t)l + 1); for (int i = 0; i < l; i++) t[i] = (char)('!' + (n * 7 + i) % 90);
		char *tt = (malloc)((size_t)l ? (size_t)l : 1); memcpy(tt, t, (size_t)l);
		/* the expected text is noted before the call and taken back when it is refused, so the writer may already run */
		int ne0 = ne; if (l) { memcpy(exp_ + ne, t, (size_t)l); ne += l; exp_[ne++] = '\n'; }
		int r = file_logger_log(L, tt, (size_t)l); ENSURES(!held, "the lock is released"); (free)(tt); (free)(t); if (r != 0) ne = ne0; else n_acc++;
		if (U8() % 3 == 0) clockms += U8() % 3;
		if (U8() % 2) co_yield();
	}
	return 0;
}
static void *killer(void *p) { file_logger_handle x = L; ENSURES(file_logger_deinit(&L) == 0 && !L, "closed"); ENSURES(file_logger_deinit(&L) != 0, "closing again does nothing"); return 0; }
void vf_harness(void)
{
	co_reset(); live = held = n_acc = ne = clockms = nfs = nopen = 0; L = NULL; rfail = U8() % 4 == 0; limit = BOOL() ? 0 : 64 + U8(); keep = BOOL(); pthread_t t; (void)t;
	co_spawn(user, NULL); co_run(); REQUIRES(!co_overrun);
	int k = 0, files = 0; for (int i = 0; i < nfs; i++) { if (strstr(fs[i].name, "_lost.log")) continue; files++; memcpy(out + k, fs[i].d, (size_t)fs[i].n); k += fs[i].n; if (!limit) ENSURES(files <= 1, "without a limit there is one file"); else if (fs[i].open) ENSURES((size_t)(fs[i].n - fs[i].base) < limit, "the file is closed once it has reached the limit"); else ENSURES((size_t)fs[i].n >= limit, "a new file is started only when the current one is full"); ENSURES(strncmp(fs[i].name, "logs/p_", 7) == 0 || strncmp(fs[i].name, "a/b/p_", 6) == 0, "files are in the folder, with the prefix"); }
	ENSURES(k == ne && memcmp(out, exp_, (size_t)k) == 0, "every accepted text is one whole line, in order");
	ENSURES(nopen <= 1, "one file at a time");
	co_spawn(killer, NULL); co_run();
	ENSURES(co_alldone() && nopen == 0 && live == 0, "closing ends the writer, closes the file and releases everything");
}
int posix_thread_set_current_name(const char *n) { return 0; }
