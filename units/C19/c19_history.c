/*VF
kind: history
functions: ini_parser_create ini_parser_parse_str ini_parser_put_string ini_parser_get_string ini_parser_has_section ini_parser_has_section_key ini_parser_delete_by_section_key ini_parser_delete_section ini_parser_foreach ini_parser_dump ini_parser_dump_to_mem ini_parser_save ini_parser_destroy ini_parser_get_long_long
fuzz: 30
assumes: memory and stdio replaced by counting stand-ins that may fail; nothing reaches the file system
*/
#include "vf.h"
#include <stdio.h>
#include <string.h>
#include <strings.h>
#include <ctype.h>
#include <stdlib.h>
#include <stdarg.h>
static long live; static int oom; static bool failed;
static bool no_(void) { if (oom && U8() % (unsigned)oom == 0) { failed = true; return true; } return false; }
static void *m_(size_t n) { if (no_()) return NULL; live++; return malloc(n); } static void *c_(size_t a, size_t b) { if (no_()) return NULL; live++; return calloc(a, b); } static void f_(void *p) { if (p) live--; free(p); } static void *r_(void *p, size_t n) { if (no_()) return NULL; if (!p) live++; return realloc(p, n); } static char *d_(const char *s) { if (no_()) return NULL; live++; return strdup(s); }
static char fobj, fbuf[60000]; static size_t fl; static int fopen_n; static bool ffail, fbad;
static FILE *o_fopen(const char *n, const char *m) { if (ffail && U8() % 4 == 0) return NULL; fopen_n++; fl = 0; return (FILE *)&fobj; } static int o_fclose(FILE *f) { ENSURES(fopen_n == 1, "closed once"); fopen_n--; return 0; }
static size_t o_fwrite(const void *b, size_t s, size_t n, FILE *f) { size_t k = s * n; if (ffail && U8() % 4 == 0) { fbad = true; k /= 2; } memcpy(fbuf + fl, b, k); fl += k; return k; } static int o_fflush(FILE *f) { if (ffail && U8() % 4 == 0) { fbad = true; return -1; } return 0; }
static int o_fputs(const char *t, FILE *f) { size_t l = strlen(t); return o_fwrite(t, 1, l, f) == l ? 1 : EOF; }
#include "mem/mem_debug.h"
#include "common_macro.h"
#undef malloc
#undef calloc
#undef free
#undef realloc
#undef strdup
#undef fclose
#include "mem/allocator.h"
#include "src/data/list.c"
static void *ac_(size_t n) { return c_(1, n); }
const allocator_t allocator_calloc = { ac_, f_ }, allocator_malloc = { m_, f_ };
#define malloc m_
#define calloc c_
#define free f_
#define realloc r_
#define strdup d_
#define fopen o_fopen
#define fwrite o_fwrite
#define fflush o_fflush
#define fputs o_fputs
#define printf(...) 0
#define get_ t_get_
#include "src/mem/stringbuilder.c"
#include "src/file/ini_reader.c"
#undef fclose
#define fclose o_fclose
#include "src/file/ini_parser.c"
#include "src/mem/strings.c"
#undef malloc
#undef calloc
#undef free
#undef realloc
#undef strdup
#undef printf
typedef struct { char s[70]; int nk; struct { char k[70], v[300]; } e[24]; } sec; static sec M[12]; static int nm, stop, seen, si, ki; static char tok;
static const char *SN[] = { "a", "A", "b", "main", "Main", "sec one", "x1", "" }, *KN[] = { "k", "K", "key2", "name", "Z.z", "a b", "n", "" }, *VN[] = { "1", "", "value", "a = b", "0x1F", "-7", "long value with words", "12x", "true" };
static char big[400];
static int fs_(const char *s) { for (int i = 0; i < nm; i++) if (!strcasecmp(M[i].s, s)) return i; return -1; } static int fk_(int i, const char *k) { for (int j = 0; i >= 0 && j < M[i].nk; j++) if (!strcasecmp(M[i].e[j].k, k)) return j; return -1; }
static int each(const char *s, const char *k, const char *v, const void *u)
{
	ENSURES(u == &tok && (!stop || seen < stop), "the caller's argument, nothing after it asked to stop"); while (si < nm && ki >= M[si].nk) { si++; ki = 0; } ENSURES(si < nm, "no entry twice"); ENSURES(!strcmp(s, M[si].s) && !strcmp(k, M[si].e[ki].k) && !strcmp(v, M[si].e[ki].v), "the entries in order"); ki++; seen++; return stop && seen == stop;
}
static const char *pick(const char **t, int n, size_t lim) { if (U8() % 24 == 0) { size_t l = lim - 2 + U8() % 4; memset(big, 'q', l); big[l] = 0; return big; } return t[U8() % n]; }
static void same(ini_parser_handle p) { int o = oom; oom = 0; si = ki = seen = 0; stop = 0; ini_parser_foreach(p, each, &tok); while (si < nm && ki >= M[si].nk) { si++; ki = 0; } ENSURES(si == nm, "every entry"); oom = o; }
void vf_harness(void)
{
	live = 0; oom = 0; failed = false; nm = 0; fopen_n = 0; int ops = (int)RANGE(1, 60); ini_parser_handle p = ini_parser_create(); int om = U8() % 3 ? 0 : 12; char sb[70], kb[70];
	while (ops-- > 0) {
		oom = om; failed = false; const char *s = pick(SN, 8, 64); strcpy(sb, s); s = sb; const char *k = pick(KN, 8, 64); strcpy(kb, k); k = kb; int i = fs_(s), j = fk_(i, k);
		switch (U8() % 8) {
		case 0: case 1: case 2: {
			const char *v = U8() % 8 ? pick(VN, 9, 256) : NULL; int r = ini_parser_put_string(p, U8() % 32 ? s : NULL, k, v), f; (void)f; if (!v) v = "";
			bool fit = strlen(s) > 0 && strlen(s) < 64 && strlen(k) > 0 && strlen(k) < 64 && strlen(v) < 256;
			if (r == 0) { ENSURES(fit, "what does not fit or has no name is refused"); if (i < 0) { i = nm++; memset(&M[i], 0, sizeof M[i]); strcpy(M[i].s, s); } if (j < 0) { j = M[i].nk++; strcpy(M[i].e[j].k, k); } strcpy(M[i].e[j].v, v); }
			else if (fit && failed && i < 0 && nm < 11) { if (ini_parser_has_section(p, s) == 0) { i = nm++; memset(&M[i], 0, sizeof M[i]); strcpy(M[i].s, s); } }
			break; }
		case 3: { char v[300]; size_t z = U8() % 2 ? 300 : U8() % 8; memset(v, 0x5a, sizeof v); int r = ini_parser_get_string(p, s, k, v, z); if (j < 0) ENSURES(r != 0, "a missing entry is reported"); else if (z == 0) ENSURES(r == 0, "found"); else if (z > strlen(M[i].e[j].v)) ENSURES(r == 0 && !strcmp(v, M[i].e[j].v), "the value last put"); else ENSURES(r != 0 && v[0] == 0x5a, "no room"); ENSURES((ini_parser_has_section(p, s) == 0) == (i >= 0), "sections"); ENSURES((ini_parser_has_section_key(p, s, k) == 0) == (j >= 0 && k[0]) || !s[0], "keys"); long long q; if (j >= 0) { char *e; long long w = strtoll(M[i].e[j].v, &e, 0); bool num = M[i].e[j].v[0] && !*e; r = ini_parser_get_long_long(p, s, k, &q); ENSURES((r == 0) == num && (r || q == w), "numbers"); } break; }
		case 4: { int r = ini_parser_delete_by_section_key(p, s, k); ENSURES((r == 0) == (j >= 0), "deleting reports whether it was there"); if (r == 0) { memmove(&M[i].e[j], &M[i].e[j + 1], sizeof M[i].e[0] * (size_t)(M[i].nk - j - 1)); M[i].nk--; } break; }
		case 5: { int r = ini_parser_delete_section(p, s); ENSURES((r == 0) == (i >= 0), "deleting reports whether it was there"); if (r == 0) { memmove(&M[i], &M[i + 1], sizeof M[0] * (size_t)(nm - i - 1)); nm--; } break; }
		case 6: { si = ki = seen = 0; stop = 1 + U8() % 6; ini_parser_foreach(p, each, &tok); stop = 0; same(p); break; }
		default: { long l0 = live; char *t = ini_parser_dump(p); if (!t) { ENSURES(failed && live == l0, "a dump fails only without memory"); break; } oom = 0;
			ini_parser_handle q = ini_parser_parse_str(t); { static sec K[12]; int kn = nm; memcpy(K, M, sizeof K); int w = 0; for (int a = 0; a < nm; a++) if (M[a].nk) { if (w != a) M[w] = M[a]; w++; } nm = w; bool ok = true; for (int a = 0; a < nm; a++) for (int b = 0; b < M[a].nk; b++) if (strlen(M[a].s) > 49 || strlen(M[a].e[b].k) + strlen(M[a].e[b].v) > 150) ok = false; if (ok) { ENSURES(q != NULL, "the dump is a document"); same(q); } nm = kn; memcpy(M, K, sizeof K); }
			if (q) ini_parser_destroy(&q); size_t tl = strlen(t), z = tl + 1 + 64 + U8() * 16; char *mem = malloc(z); size_t zz = z; if (ini_parser_dump_to_mem(p, mem, &zz) == 0) ENSURES(zz == tl + 1 && !strcmp(mem, t), "the same text"); free(mem); oom = om; failed = false; ffail = U8() % 2; fbad = false; int r = ini_parser_save(p, "f"); ENSURES(fopen_n == 0, "the file is closed"); if (r == 0) ENSURES(!fbad && fl == tl && !memcmp(fbuf, t, tl), "saved completely"); else ENSURES(ffail || failed || !tl, "or the failure is reported"); f_(t); ENSURES(live == l0, "nothing leaks"); break; }
		}
		if (nm > 9) break;
	}
	oom = 0; same(p); ini_parser_destroy(&p); ENSURES(live == 0, "every block is released");
}
