/*VF
kind: loopinv
src: src/file/ini_reader.c
functions: ini_reader_parse_stream
unwind: 4
unwindset: vf_k_ini_rstrip.0:201
cases: 0 1 2 3
casejobs: 4
nobmc: 1
san: nonat
timeout: 500
contractcalls: ini_rstrip ini_lskip ini_find_chars_or_comment ini_strncpy0
assumes: the four helpers by the contracts discharged in c20_helpers | the reader delivers a non-empty NUL-terminated line that fits, or NULL at the end | at most 2000000000 lines (line numbers are int) | isspace in the C locale
*/
#include "vf.h"
#ifndef VF_CASE
#define VF_CASE 3
#endif
#include <stdio.h>
#include <string.h>
#include <ctype.h>
#include <stdlib.h>
#undef strchr
#undef isspace
#define ISSP(c) ((unsigned char)(c) == 32 || ((unsigned char)(c) >= 9 && (unsigned char)(c) <= 13))
static int k_isspace(int c) { return ISSP(c); }
#define isspace k_isspace
static char *k_strchr(const char *p, int c) { for (int i = 0; i < 3; i++) { if (p[i] == (char)c) return (char *)p + i; if (!p[i]) return 0; } return 0; }
#define strchr k_strchr
static char *vf_k_ini_rstrip(char *), *vf_k_ini_lskip(const char *), *vf_k_ini_find_chars_or_comment(const char *, const char *), *vf_k_ini_strncpy0(char *, const char *, size_t);
#define LN 200
typedef struct { char c[LN]; } ln; static ln T; static char *L; static size_t last, w, y, n, B0, E, A, c_o, c_k, nr, nl, nf, r_k[4], r_o[4], l_k[4], f_k[4], f_o[4];
static size_t sl, pl; static char sy, py; static bool prevon, due_l, due_s, due_sec, due_p; static int due_h, kind; static int no, err, hn; static size_t left; static char tok, tok2; static bool eof;
#define ALLG (no = (int)OFF(2000000000), left = OFF(2000000000), err = (int)OFF(2000000000), sl = OFF(49), pl = OFF(49), sy = (char)U8(), py = (char)U8(), due_l = due_s = due_sec = due_p = eof = false, due_h = 0, y = OFF(48))
#define VF_INV_ini_reader_parse_stream_1 (!due_l && !due_s && !due_sec && !due_p && due_h == 0 && !eof && no >= 0 && no <= 2000000000 && (size_t)no + left <= 2000000000 && lineno == no && error == err && err >= 0 && err <= no && sl < 50 && pl < 50 && section[sl] == 0 && prev_name[pl] == 0 && (pl > 0) == (prev_name[0] != 0) && IMPLIES(y < sl, section[y] == sy) && IMPLIES(y < pl, prev_name[y] == py) && max_line == 200)
#define VF_HAV_ini_reader_parse_stream_1 (start = line, end = line, name = line, value = line); HAVOBJ(line); HAVOBJ(section); HAVOBJ(prev_name); no = (int)OFF(2000000000), left = OFF(2000000000), err = (int)OFF(2000000000), sl = OFF(49), pl = OFF(49), sy = (char)U8(), py = (char)U8(), due_l = due_s = due_sec = due_p = eof = false, due_h = 0
#define VF_DEC_ini_reader_parse_stream_1 left
#include "src/file/ini_reader.c"
#define OFFL(p) ((size_t)((p) - L))
#define CM(i, from) ((i) > (from) && (i) < LN && T.c[i] == ';' && ISSP(T.c[(i) - 1]))
#define INW(a, b) (w >= (a) && w < (b))
static void mine(const char *p) { __CPROVER_assert(L && __CPROVER_same_object(p, L) && OFFL(p) <= n, "STUB a position in the line"); }
static char *os_reader(char *s, int num, void *st)
{
	ENSURES(st == &tok2 && !eof, "the caller's stream, not after its end"); ENSURES(!due_l && !due_s && !due_sec && !due_p && due_h == 0, "the previous line was treated completely"); ENSURES(num >= 2 && num <= LN && __CPROVER_w_ok(s, (size_t)num), "the line buffer's size");
	if (BOOL() || left == 0) { eof = true; return NULL; }
	left--; L = s; n = RANGE(1, LN - 1); REQUIRES(n < (size_t)num); __CPROVER_havoc_slice(s, LN); s[n] = 0; w = RANGE(0, LN - 1); if (w < n) REQUIRES(s[w] != 0); REQUIRES(s[0] != 0); T = *(ln *)s;
	no++; B0 = no == 1 && (unsigned char)s[0] == 0xEF && (unsigned char)s[1] == 0xBB && (unsigned char)s[2] == 0xBF ? 3 : 0; if (B0) REQUIRES(n >= 3); nr = nl = nf = 0; due_l = true; prevon = pl > 0; return s;
}
static char *vf_k_ini_rstrip(char *s)
{
	mine(s); size_t o = OFFL(s), l = nf == 0 ? n : f_k[nf - 1], k = RANGE(0, LN - 1); __CPROVER_assert(o <= l && L[l] == 0 && nr < 4, "STUB rstrip of a text whose end is known"); if (nr == 0) ENSURES(o == B0, "the whole line, behind a byte order mark");
	REQUIRES(k >= o && k <= l); if (INW(k, l)) REQUIRES(ISSP(T.c[w])); if (k > o) REQUIRES(!ISSP(T.c[k - 1]) && T.c[k - 1] != 0);
	for (size_t i = 0; i < LN; i++) if (i >= k && i < l) L[i] = 0;
	last = k; r_k[nr] = k; r_o[nr] = o; if (nr == 0) E = k; nr++; return s;
}
static char *vf_k_ini_lskip(const char *s)
{
	mine(s); size_t o = OFFL(s), l = last, k = RANGE(0, LN - 1); __CPROVER_assert(nr >= 1 && o <= l && L[l] == 0 && nl < 4, "STUB lskip of a text whose end is known");
	REQUIRES(k >= o && k <= l); if (INW(o, k)) REQUIRES(ISSP(T.c[w])); if (k < l) REQUIRES(!ISSP(T.c[k]) && T.c[k] != 0);
	l_k[nl] = k; if (nl == 0) { ENSURES(o == B0, "from the start of the line"); A = k; due_l = false; char c = k < E ? T.c[k] : 0;
		kind = c == 0 || c == ';' || c == '#' ? 0 : prevon && A > 0 ? 1 : c == '[' ? 2 : 3; due_h = kind == 1 || kind == 3; due_s = kind == 2; REQUIRES(kind == VF_CASE); }
	nl++; return (char *)s + (k - o);
}
static char *vf_k_ini_find_chars_or_comment(const char *s, const char *ch)
{
	mine(s); size_t o = OFFL(s), k = RANGE(0, LN - 1); __CPROVER_assert(nl >= 1 && o <= E && L[E] == 0 && nf < 4 && (nf == 0 || o > f_k[nf - 1]), "STUB search in a text whose end is known");
#define IN(c) (ch && k_strchr(ch, c))
	REQUIRES(k >= o && k <= E); char t = T.c[w]; if (INW(o, k)) REQUIRES(!IN(t) && !CM(w, o)); if (k < E) REQUIRES((IN(T.c[k]) || CM(k, o)) && T.c[k] != 0);
	last = k; f_k[nf] = k; f_o[nf] = o;
	if (nf == 0 && kind == 2 && due_s) { ENSURES(o == A + 1 && ch, "a section's name is searched for its end"); due_s = false; if (INW(o, k)) ENSURES(t != ']', "the first bracket"); if (k < E && T.c[k] == ']') { due_sec = true; pl = 0; } else { if (k < E) ENSURES(CM(k, o), "or a comment"); if (!err) err = no; } }
	if (nf == 0 && kind == 3 && k < E && (T.c[k] == '=' || T.c[k] == ':')) due_p = true;
	nf++; return (char *)s + (k - o);
}
static char *vf_k_ini_strncpy0(char *d, const char *s, size_t size)
{
	mine(s); size_t o = OFFL(s), l = kind == 2 ? f_k[0] : r_k[1]; __CPROVER_assert((due_sec || (due_p && nr >= 2)) && o <= l && L[l] == 0, "STUB copy of a text whose end is known"); ENSURES(size == 50 && __CPROVER_w_ok(d, size), "within the buffer"); ENSURES(o == (kind == 2 ? A + 1 : A), "the section or the key");
	size_t m = l - o < size - 1 ? l - o : size - 1; if (m > 0) REQUIRES(L[o] != 0); 
	__CPROVER_havoc_slice(d, 50); d[0] = m ? L[o] : 0; d[m] = 0; if (y < m) d[y] = L[o + y];
	if (kind == 2) { sl = m; sy = d[y]; due_sec = false; } else { pl = m; py = d[y]; due_p = false; } return d;
}
static int os_handler(void *u, const char *s, const char *nm, const char *v)
{
	ENSURES(u == &tok, "the caller's argument"); ENSURES(due_h == 1 && (kind == 1 || kind == 3), "one call, for a key line or a continuation"); due_h = 0;
	ENSURES(s[sl] == 0 && IMPLIES(y < sl, s[y] == sy), "the enclosing section");
	if (kind == 1) {
		ENSURES(nm[pl] == 0 && IMPLIES(y < pl, nm[y] == py), "the key that is continued"); ENSURES(v == L + A && nf == 1 && nr == 2, "the continued value"); size_t c = f_k[0], x = r_k[1]; ENSURES(L[x] == 0 && f_o[0] == A && r_o[1] == A, "its end");
		if (INW(A, x)) ENSURES(L[w] == T.c[w] && !CM(w, A), "the text"); if (INW(x, c)) ENSURES(ISSP(T.c[w]), "without trailing blanks"); ENSURES(c == E || CM(c, A), "up to an inline comment"); 
#if VF_CASE == 1
		REACH("continued")
#endif
;
	} else {
		size_t c = f_k[0], e = r_k[1]; ENSURES(nm == L + A && nf >= 1 && nr >= 2 && f_o[0] == A && r_o[1] == A && L[e] == 0, "the key"); char t = T.c[w];
		if (INW(A, e)) ENSURES(L[w] == t, "its text"); if (INW(A, c)) ENSURES(t != '=' && t != ':' && !CM(w, A), "up to the first delimiter"); if (INW(e, c)) ENSURES(ISSP(t), "without trailing blanks"); if (e > A) ENSURES(!ISSP(T.c[e - 1]), "without any trailing blank");
		bool delim = c < E && (T.c[c] == '=' || T.c[c] == ':'); if (!delim) { ENSURES(v == NULL, "a key without a value"); ENSURES(c == E || CM(c, A), "the line has no delimiter"); 
#if VF_CASE == 3
		REACH("bare")
#endif
; }
		else { ENSURES(v != NULL && nf == 2 && nl == 2 && nr == 3 && f_o[1] == c + 1, "a value"); size_t d = f_k[1], b = l_k[1], x = r_k[2]; ENSURES(v == L + b && L[x] == 0 && b <= x, "its place"); if (x > b) ENSURES(!ISSP(T.c[x - 1]), "without any trailing blank");
			if (INW(c + 1, b)) ENSURES(ISSP(t), "only blanks before it"); if (INW(b, x)) ENSURES(L[w] == t, "its text"); if (INW(x, d)) ENSURES(ISSP(t), "without trailing blanks"); if (INW(c + 1, d)) ENSURES(!CM(w, c + 1), "before any inline comment"); ENSURES(d == E || CM(d, c + 1), "up to an inline comment"); 
#if VF_CASE == 3
		REACH("value")
#endif
; }
	}
	int r = (int)I32(); if (r == 0 && !err) err = no; return r;
}
void vf_harness(void)
{
	no = err = 0; sl = pl = 0; sy = py = 0; y = RANGE(0, 48); due_l = due_s = due_sec = due_p = eof = false; due_h = 0; left = RANGE(0, 2000000000); L = 0;
	int r = ini_reader_parse_stream(os_reader, &tok2, os_handler, &tok);
	ENSURES(eof && r == err, "the whole text is read; the number of the first line with an error, or 0"); REACH("read");
}
