/*VF
kind: loopinv
src: src/file/file_util.c
functions: file_util_read_txt
unwind: 2
bound: 4
bunwind: 9
assumes: fgets stores a non-empty NUL-terminated line of less than the buffer size with a newline only at its end, or returns NULL at the end of the file or on an error that ferror reports; isspace by its C-locale contract; strchr(line, newline) and strlen by contract in the deductive run
*/
#include "fu.inc"
#include <ctype.h>
#undef isspace
#undef ferror
static FILE *os_fopen(const char *, const char *); static char *os_fgets(char *, int, FILE *); static int os_fclose(FILE *), os_ferror(FILE *);
#define ISSP(c) ((c) == ' ' || ((c) >= 9 && (c) <= 13))

static char *vf_buf; static size_t vf_l, vf_e, vf_w; static char vf_cw, vf_lead; static bool vf_have, vf_nl, vf_eof, vf_err, vf_stop, vf_due; static size_t vf_left; static int vf_ln, vf_open, vf_rc; static char vf_fobj;
#define fopen os_fopen
#define fgets os_fgets
#define fclose os_fclose
#define ferror os_ferror
static int k_isspace(int c) { return ISSP(c); }
#define isspace k_isspace
#ifdef VF_UNB
static char *k_strchr(char *p, int c) { __CPROVER_assert(p == vf_buf && c == '\n', "STUB strchr of the line"); return vf_nl ? p + (vf_l - 1) : NULL; }
static size_t k_strlen(const char *p) { __CPROVER_assert(p == vf_buf && !vf_nl, "STUB strlen of a line without its end"); return vf_l; }
#undef strchr
#define strchr k_strchr
#define strlen k_strlen
#endif
#define VF_INV_file_util_read_txt_1 (vf_ln >= 0 && vf_ln <= 2000000000 && line_num == vf_ln + vf_due && vf_left <= 2000000000 && (size_t)vf_ln + vf_left + vf_due <= 2000000000 && !vf_stop && !vf_eof && ret == 0 && IMPLIES(vf_due && vf_w < vf_e, ISSP(vf_cw)))
#define VF_DEC_file_util_read_txt_1 vf_left
#define VF_HAV_file_util_read_txt_1 (p = buf, vf_left = OFF(2000000000), vf_ln = (int)I64(), vf_due = BOOL(), vf_w = OFF(1022), vf_e = OFF(1023), vf_cw = (char)U8(), vf_have = BOOL(), vf_stop = vf_eof = vf_err = false)
#define VF_INV_file_util_read_txt_2 (vf_due && vf_have && p >= buf && p <= buf + vf_e && buf[vf_e] == 0 && vf_buf == buf && IMPLIES(vf_w < vf_e, buf[vf_w] == vf_cw && vf_cw != 0) && IMPLIES(vf_w < (size_t)(p - buf), ISSP(vf_cw)))
#define VF_HAV_file_util_read_txt_2 p = buf + OFF(vf_e); __CPROVER_assume(p == buf + vf_e || *p != 0)   /* the line holds no NUL, instantiated at p */
#define VF_DEC_file_util_read_txt_2 (buf + vf_e - p)
#include "src/file/file_util.c"
#undef fopen
#undef fgets
#undef fclose
#undef ferror
#undef isspace
static FILE *os_fopen(const char *n, const char *m) { ENSURES(m[0] == 'r', "opened for reading"); if (BOOL()) return NULL; vf_open++; return (FILE *)&vf_fobj; }
static int os_fclose(FILE *f) { ENSURES((char *)f == &vf_fobj && vf_open == 1, "closed once"); vf_open--; return 0; }
static int os_ferror(FILE *f) { ENSURES((char *)f == &vf_fobj && vf_open == 1, "an open handle"); return vf_err; }
static void due(void)   /* the previous line had no text if its handler was not called */
{
	if (vf_due && vf_w < vf_e) ENSURES(ISSP(vf_cw), "only blank lines are skipped");
	if (vf_due) vf_ln++;
	vf_due = false;
}
static char *os_fgets(char *s, int n, FILE *f)
{
	ENSURES((char *)f == &vf_fobj && vf_open == 1 && !vf_eof && !vf_stop, "an open handle"); ENSURES(n >= 2 && (size_t)n <= 1024, "within the buffer"); due();
	if (BOOL() || vf_left == 0) { vf_eof = true; vf_err = BOOL(); return NULL; }
	vf_left--; vf_l = SZ(1, 1023); REQUIRES(vf_l < (size_t)n); vf_nl = BOOL(); vf_buf = s; 
#ifdef VF_UNB
	__CPROVER_havoc_slice(s, 1024); 
#endif
#ifndef VF_UNB
	for (size_t i = 0; i < vf_l; i++) { s[i] = (char)U8(); REQUIRES(s[i] != 0 && s[i] != '\n'); }
#endif
	s[vf_l] = 0; if (vf_nl) s[vf_l - 1] = '\n'; vf_e = vf_nl ? vf_l - 1 : vf_l; vf_w = RANGE(0, 1022);
	if (vf_w < vf_e) REQUIRES(s[vf_w] != 0 && s[vf_w] != '\n'); if (vf_e) { REQUIRES(s[vf_e - 1] != 0 && s[vf_e - 1] != '\n'); if (s[vf_e - 1] == '\r') vf_e--; }
	vf_cw = vf_w < vf_e ? s[vf_w] : 0; vf_have = true; vf_due = true; return s;
}
static int handler(int ln, char *t, void *u)
{
	ENSURES(u == &vf_fobj && vf_due && vf_open == 1, "one call per line, with the caller's argument"); ENSURES(ln == vf_ln, "the line's number");
	ENSURES(t >= vf_buf && (size_t)(t - vf_buf) < vf_e && !ISSP(t[0]) && vf_buf[vf_e] == 0, "the text, ended where the line ends"); if (vf_w < vf_e) { ENSURES(vf_buf[vf_w] == vf_cw, "unchanged"); if (vf_w < (size_t)(t - vf_buf)) ENSURES(ISSP(vf_cw), "only leading blanks are dropped"); }
	vf_due = false; vf_ln++; REACH("handled"); if (BOOL()) { vf_rc = (int)I32(); if (vf_rc != 0) { vf_stop = true; return vf_rc; } } return 0;
}
void vf_harness(void)
{
	vf_ln = 0; vf_open = 0;
#ifdef VF_UNB
	vf_left = RANGE(0, 2000000000);
#else
	vf_left = RANGE(0, 2);
#endif
	 vf_have = vf_eof = vf_err = vf_stop = vf_due = false; char nm[2] = "f"; 
	int r = file_util_read_txt(nm, handler, &vf_fobj);
	ENSURES(vf_open == 0, "the handle is closed");
	if (vf_stop) ENSURES(r == vf_rc, "the handler's result is handed on"); else if (r == 0) ENSURES(vf_eof && !vf_err && !vf_due, "success only at the end of the file"); else ENSURES(r < 0 && (vf_err || !vf_have), "failure only for an error");
	REACH("done");
}
