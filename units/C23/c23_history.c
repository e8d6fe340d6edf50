/*VF
kind: history
functions: file_util_mkdirs file_util_append_slash_on_path_if_needed file_util_read file_util_write file_util_read_all file_util_read_txt file_util_get_size_by_fs
fuzz: 20
assumes: the operating system's calls are replaced by an in-memory file system that fails and transfers short at will
*/
#include "fu.inc"
#include <ctype.h>
#define DATA 700
static unsigned char file[DATA]; static size_t fsz, fpos; static int fopen_n, live, ended; static bool faults, ferr; static char fobj;
static ssize_t x_(void *b, const void *s, size_t n, unsigned char **at) { size_t k = n; if (faults && U8() % 3 == 0) k = RANGE(0, n); if (faults && U8() % 12 == 0) { ended = 1; return -1; } if (ended) ENSURES(0, "no transfer after an error"); if (k == 0) { ended = 1; return 0; } if (b) memcpy(b, *at, k); else memcpy(*at, s, k); *at += k; return (ssize_t)k; }
static unsigned char *rp, *wp, sink[DATA];
static ssize_t o_read(int fd, void *b, size_t n) { size_t l = (size_t)(file + fsz - rp); return x_(b, NULL, n < l ? n : l, &rp); }
static ssize_t o_write(int fd, const void *b, size_t n) { return x_(NULL, b, n, &wp); }
static FILE *o_fopen(const char *n, const char *m) { ENSURES(m[0] == 'r', "only read"); if (faults && U8() % 8 == 0) return NULL; fopen_n++; fpos = 0; return (FILE *)&fobj; }
static int o_fclose(FILE *f) { ENSURES((char *)f == &fobj && fopen_n == 1, "closed once"); fopen_n--; return 0; }
static int o_fseek(FILE *f, long o, int w) { ENSURES(fopen_n == 1, "an open handle"); if (faults && U8() % 8 == 0) return -1; fpos = (size_t)((w == SEEK_END ? (long)fsz : w == SEEK_CUR ? (long)fpos : 0) + o); return 0; }
static long o_ftell(FILE *f) { return faults && U8() % 8 == 0 ? -1 : (long)fpos; }
static size_t o_fread(void *b, size_t s, size_t n, FILE *f) { size_t av = fsz - fpos, w = s * n; if (w > av) w = av; if (faults && U8() % 4 == 0) w = RANGE(0, w); memcpy(b, file + fpos, w); fpos += w; return s ? w / s : 0; }
static char *o_fgets(char *s, int n, FILE *f) { int k = 0; if (faults && U8() % 16 == 0) { ferr = true; return NULL; } while (k + 1 < n && fpos < fsz) { s[k++] = (char)file[fpos++]; if (s[k - 1] == '\n') break; } if (!k) return NULL; s[k] = 0; return s; }
static int o_ferror(FILE *f) { ENSURES(fopen_n == 1, "an open handle"); return ferr; }
static void *o_malloc(size_t n) { if (faults && U8() % 6 == 0) return NULL; live++; return malloc(n); } static void o_free(void *p) { if (p) live--; free(p); }
static char made[40][300]; static int nmade, exist, mkfail; static bool mkfailed;
static bool have(const char *p) { for (int i = 0; i < nmade; i++) if (!strcmp(made[i], p)) return true; return false; }
static int o_access(const char *p, int m) { return have(p) ? 0 : -1; }
static int o_mkdir(const char *p, mode_t m) { ENSURES(!have(p) && !mkfailed, "only a missing directory, none after an error"); ENSURES(strlen(p) < 300 && nmade < 40, "a prefix of the path"); if (faults && U8() % 16 == 0) { mkfailed = true; return -1; } strcpy(made[nmade++], p); return 0; }
#define read o_read
#define write o_write
#define fopen o_fopen
#undef fclose
#define fclose o_fclose
#define fseek o_fseek
#define ftell o_ftell
#undef rewind
#define rewind(f) ((void)o_fseek(f, 0, SEEK_SET))
#undef feof
#define feof(f) (fpos >= fsz)
#define fread o_fread
#define fgets o_fgets
#undef ferror
#define ferror o_ferror
#undef malloc
#undef free
#define malloc o_malloc
#define free o_free
#define access o_access
#define mkdir o_mkdir
#include "src/file/file_util.c"
#undef malloc
#undef free
static int tl, tstop, tgot; static char want[400][720]; static int wline[400], nwant;
static int txt(int n, char *s, void *u) { ENSURES(u == &tl && tgot < nwant, "one call per line, with the caller's argument"); ENSURES(n == wline[tgot] && !strcmp(s, want[tgot]), "the line without its end and leading blanks"); tgot++; return tgot == tstop ? 77 : 0; }
void vf_harness(void)
{
	int ops = (int)RANGE(1, 12);
	while (ops-- > 0) {
		faults = U8() % 2; fopen_n = live = ended = 0; ferr = false;
		switch (U8() % 5) {
		case 0: { /* mkdirs */
			nmade = 0; mkfailed = false; size_t n = U8() % 3 ? U8() % 24 : 240 + U8() % 24; char p[270]; for (size_t i = 0; i < n; i++) p[i] = "ab/c/\\d"[n > 100 && i % 16 ? 0 : U8() % 7]; p[n] = 0; if (n > 250 && U8() % 2) p[n - 1] = '/';
			char *h = malloc(n + 1); memcpy(h, p, n + 1); int pre = 0; for (size_t i = 0; i < n && U8() % 4; i++) if (h[i] == '/' || h[i] == '\\') { memcpy(made[nmade], h, i + 1); made[nmade++][i + 1] = 0; pre++; }
			int r = file_util_mkdirs(h); if (n >= 256) ENSURES(r < 0 && nmade == pre, "a path that does not fit is refused"); else { ENSURES((r == 0) == !mkfailed, "success only if no directory failed"); int k = 0; for (size_t i = 0; i < n; i++) if (h[i] == '/' || h[i] == '\\') { if (k < nmade) ENSURES(strlen(made[k]) == i + 1 && !memcmp(made[k], h, i + 1), "the parents in turn"); else ENSURES(mkfailed, "every parent is created"); k++; } ENSURES(nmade <= k, "and nothing else"); }
			ENSURES(!strcmp(h, p), "the path is only read"); free(h); break; }
		case 1: { /* separator */
			size_t size = 1 + U8() % 20, l = RANGE(0, size); char *h = malloc(size), *o = malloc(size); for (size_t i = 0; i < size; i++) h[i] = i < l ? "ab  //\\"[U8() % 7] : 0; memcpy(o, h, size);
			int r = file_util_append_slash_on_path_if_needed(h, size); size_t e = l; while (e && o[e - 1] == ' ') e--; char sl = memchr(o, '\\', l) ? '\\' : '/'; bool has = e && o[e - 1] == sl;
			if (size < 3 || l >= size || e == 0 || (!has && e + 1 >= size)) ENSURES(r < 0 && !memcmp(h, o, size), "what does not fit is refused without effect");
			else { ENSURES(r == 0 && !memcmp(h, o, e), "the path is kept"); if (!has) ENSURES(h[e] == sl && !h[e + 1], "one separator is appended"); else ENSURES(h[e] == 0 || h[e] == ' ', "only when missing"); }
			free(h); free(o); break; }
		case 2: { /* whole buffers */
			fsz = RANGE(0, DATA); for (size_t i = 0; i < fsz; i++) file[i] = (unsigned char)(i * 7 + ops); rp = file; wp = sink; size_t n = RANGE(0, DATA); unsigned char *b = malloc(n + 1); memset(b, 0x5a, n + 1); int r;
			if (U8() % 2) { r = file_util_read(3, b, n); ENSURES(r == (int)(rp - file) && !memcmp(b, file, (size_t)r) && b[n] == 0x5a, "the bytes in order"); }
			else { for (size_t i = 0; i < n; i++) b[i] = (unsigned char)(i * 3 + 1); r = file_util_write(3, b, n); ENSURES(r == (int)(wp - sink) && !memcmp(b, sink, (size_t)r), "the bytes in order"); }
			ENSURES((size_t)r == n || ended, "fewer only after the system reported an end or an error"); free(b); break; }
		case 3: { /* a whole file */
			fsz = U8() % 4 ? RANGE(0, DATA) : 0; for (size_t i = 0; i < fsz; i++) file[i] = (unsigned char)(i * 5 + ops); char *d = &fobj; bool nm = U8() % 16; int len = 99, r = file_util_read_all(nm ? "f" : "", &d, &len);
			ENSURES(fopen_n == 0, "the handle is closed"); if (r) ENSURES(!d && live == 0, "failure leaves nothing behind"); else { ENSURES(live == 1 && d && (size_t)len == fsz && !memcmp(d, file, fsz) && !d[fsz], "every byte, then NUL"); o_free(d); } if (!nm) ENSURES(r, "no name"); if (!faults && nm && r && fsz) ENSURES(0, "a readable file is read") ; break; }
		default: { /* lines */
			fsz = RANGE(0, DATA); for (size_t i = 0; i < fsz; i++) file[i] = (unsigned char)"ab \tc\r\n"[U8() % 7]; nwant = 0; int ln = 0; for (size_t i = 0; i < fsz; ln++) { size_t j = i; while (j < fsz && file[j] != '\n') j++; size_t e = j, s = i; if (e > i && file[e - 1] == '\r') e--; while (s < e && isspace(file[s])) s++; if (s < e) { memcpy(want[nwant], file + s, e - s); want[nwant][e - s] = 0; wline[nwant++] = ln; } i = j + 1; }
			tgot = 0; tstop = U8() % 8; if (!tstop) tstop = -1; int r = file_util_read_txt("f", txt, &tl); ENSURES(fopen_n == 0, "the handle is closed"); if (tgot == tstop) ENSURES(r == 77, "the handler stops the reading"); else if (r == 0) ENSURES(tgot == nwant, "every line"); else ENSURES(faults && r < 0, "or the error is reported"); }
		}
	}
}
