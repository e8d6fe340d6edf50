/*VF
kind: history
functions: ini_reader_parse_stream ini_reader_parse_string ini_reader_string ini_rstrip ini_lskip ini_find_chars_or_comment ini_strncpy0
fuzz: 20
*/
#include "vf.h"
#include <stdio.h>
#include <string.h>
#include <ctype.h>
#include <stdlib.h>
#include "src/file/ini_reader.c"
#define MAXE 400
typedef struct { char s[64], n[256], v[256]; int nov, line; } ent;
static ent E[MAXE]; static int ne, got, refuse, want, noted; static char tok;
static int bl(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static int h_(void *u, const char *s, const char *n, const char *v)
{
	ENSURES(u == &tok, "the caller's argument"); ENSURES(got < ne, "no entry beyond those of the text"); ent *e = &E[got];
	ENSURES(!strcmp(s, e->s), "the enclosing section"); ENSURES(!strcmp(n, e->n), "the key, stripped"); ENSURES(e->nov ? v == NULL : v && !strcmp(v, e->v), "the value, stripped"); got++; return refuse ? got % refuse != 0 : 7;
}
/* an independent reading of one line; t[0..n) without its NUL */
static void line_(const char *t, int n, int no, char *sec, char *prev, int *err, int entry)
{
	int a = 0, e = n, c, d; if (no == 1 && n >= 3 && !memcmp(t, "\xEF\xBB\xBF", 3)) a = 3;
	while (e > a && bl(t[e - 1])) e--; while (a < e && bl(t[a])) a++;
	if (a == e || t[a] == ';' || t[a] == '#') return;
	ent x; memset(&x, 0, sizeof x); strcpy(x.s, sec); x.line = no;
#define CMT(i, from) ((i) > (from) && t[i] == ';' && bl(t[(i) - 1]))
#define CPY(dst, i, j) do { memcpy(dst, t + (i), (size_t)((j) - (i))); (dst)[(j) - (i)] = 0; } while (0)
	if (*prev && a > 0) { for (c = a; c < e && !CMT(c, a); c++) ; while (c > a && bl(t[c - 1])) c--; strcpy(x.n, prev); CPY(x.v, a, c); }
	else if (t[a] == '[') {
		for (c = a + 1; c < e && t[c] != ']' && !CMT(c, a + 1); c++) ;
		if (c < e && t[c] == ']') { d = c - a - 1 > 49 ? a + 1 + 49 : c; CPY(sec, a + 1, d); *prev = 0; } else if (!*err) *err = no; return;
	} else {
		for (c = a; c < e && t[c] != '=' && t[c] != ':' && !CMT(c, a); c++) ;
		int k = c; while (k > a && bl(t[k - 1])) k--; CPY(x.n, a, k);
		if (c < e && (t[c] == '=' || t[c] == ':')) { int v = c + 1; for (d = v; d < e && !CMT(d, v); d++) ; while (v < d && bl(t[v])) v++; while (d > v && bl(t[d - 1])) d--; CPY(x.v, v, d); CPY(prev, a, k - a > 49 ? a + 49 : k); }
		else x.nov = 1;
	}
	E[ne++] = x; if (refuse && ne % refuse == 0 && !*err) *err = no;
}
void vf_harness(void)
{
	static const char *W[] = { "key", "=", " ", "\n", "[sec]", ";", "#", "\t", "a b", ":", "\n  ", "[", "]", "\r\n", " ; note", "\xEF\xBB\xBF", "k = v\n", "  ", "\xc3\xa9", "longlonglonglonglonglonglonglonglonglonglonglonglonglong" };
	static char txt[3000]; size_t n = 0, ops = RANGE(0, 60); if (U8() % 8 == 0) { strcpy(txt, "\xEF\xBB\xBF"); n = 3; }
	while (ops-- && n < 2000) { const char *w = W[U8() % 20]; size_t l = strlen(w), k = U8() % 16 == 0 ? 1 + U8() % 5 : 1; while (k--) { memcpy(txt + n, w, l); n += l; } } txt[n] = 0; if (n >= 2500) return;
	refuse = U8() % 2 ? 0 : 1 + U8() % 6; ne = got = 0; int no = 0, err = 0; char sec[64] = "", prev[64] = "";
	for (size_t i = 0; i < n;) { size_t j = i; while (j < n && j - i < 199 && (j == i || txt[j - 1] != '\n')) j++; line_(txt + i, (int)(j - i), ++no, sec, prev, &err, 0); i = j; if (ne >= MAXE - 1) return; }
	char *h = malloc(n + 1); memcpy(h, txt, n + 1); int r = ini_reader_parse_string(h, h_, &tok);
	ENSURES(got == ne, "every entry of the text"); ENSURES(r == err, "the first line with an error, or 0"); ENSURES(!memcmp(h, txt, n + 1), "the text is only read"); free(h);
}
