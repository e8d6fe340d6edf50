/*VF
kind: full
src: src/file/file_util.c
functions: file_util_read_all
assumes: fopen, fseek, ftell, fread, malloc and free by contracts: any may fail; a file may be shorter than ftell said; a failed malloc returns NULL
*/
#include "fu.inc"
static FILE *os_fopen(const char *, const char *); static int os_fseek(FILE *, long, int); static long os_ftell(FILE *); static size_t os_fread(void *, size_t, size_t, FILE *); static int os_fclose(FILE *); static void *os_malloc(size_t); static void os_free(void *);
static int os_int(int x) { return x; }
#define fopen os_fopen
#define fseek os_fseek
#define ftell os_ftell
#define fread os_fread
#undef fclose
#define fclose os_fclose
#define rewind(f) ((void)os_fseek(f, 0, SEEK_SET))
#undef malloc
#undef free
#define malloc os_malloc
#define free os_free
#include "src/file/file_util.c"
#undef malloc
#undef free
static char vf_fobj; static int vf_open, vf_live; static long vf_size, vf_told, vf_pos; static bool vf_sk; static char *vf_mem; static size_t vf_cap, vf_w; static char vf_c; static bool vf_full;
static FILE *os_fopen(const char *n, const char *m) { ENSURES(n[0] && m[0] == 'r', "opened for reading"); if (BOOL()) return NULL; vf_open++; vf_pos = 0; return (FILE *)&vf_fobj; }
static int os_fseek(FILE *f, long o, int wh) { ENSURES((char *)f == &vf_fobj && vf_open == 1, "an open handle"); if (BOOL()) return -1; vf_pos = wh == SEEK_END ? vf_size + o : wh == SEEK_SET ? o : vf_pos + o; return 0; }
static long os_ftell(FILE *f) { ENSURES((char *)f == &vf_fobj && vf_open == 1, "an open handle"); return BOOL() ? -1 : vf_pos; }
static size_t os_fread(void *b, size_t s, size_t n, FILE *f)
{
	ENSURES((char *)f == &vf_fobj && vf_open == 1, "an open handle"); ENSURES((char *)b == vf_mem && vf_live == 1 && (s == 1 || n == 1) && s * n <= vf_cap, "into the buffer, within it");
	size_t av = vf_pos >= vf_size ? 0 : (size_t)(vf_size - vf_pos), k = n; if (s == 1) { if (k > av) k = av; if (BOOL()) { size_t j = RANGE(0, k); k = j; } if (vf_w < k && vf_pos == 0) vf_mem[vf_w] = vf_c; vf_full = vf_pos == 0 && (long)k == vf_size; } else { k = (s <= av && !BOOL()) ? 1 : 0; if (k && vf_pos == 0 && vf_w < s) vf_mem[vf_w] = vf_c; vf_full = k && vf_pos == 0 && (long)s == vf_size; }
	vf_pos += (long)(s == 1 ? k : 0); return k;
}
static int os_fclose(FILE *f) { ENSURES((char *)f == &vf_fobj && vf_open == 1, "closed once"); vf_open--; return BOOL() ? -1 : 0; }
static void *os_malloc(size_t n) { if (BOOL()) return NULL; ENSURES(vf_live == 0, "one buffer"); vf_live++; vf_cap = n; return vf_mem = BUF(n); }
static void os_free(void *p) { if (!p) return; ENSURES((char *)p == vf_mem && vf_live == 1, "freed once"); vf_live--; }
void vf_harness(void)
{
	vf_open = vf_live = 0; vf_size = (long)SZ(0, (size_t)1 << 40); vf_mem = NULL; vf_full = false; vf_cap = 0; vf_pos = 0;
#ifndef __CPROVER
	if (vf_size > 4096) vf_size %= 4096;
#endif
	vf_w = vf_size ? RANGE(0, (size_t)vf_size - 1) : 0; vf_c = (char)U8();
	char *out = (char *)&vf_fobj; int len = 12345; char name[2] = { BOOL() ? 'f' : 0, 0 }; bool nn = BOOL() && BOOL(), no = BOOL() && BOOL(), nl = BOOL() && BOOL();
	int r = file_util_read_all(nn ? NULL : name, no ? NULL : &out, nl ? NULL : &len);
	ENSURES(vf_open == 0, "the handle is closed"); (void)os_int;
	if (nn || no || nl || !name[0]) { ENSURES(r < 0 && vf_live == 0, "refused"); if (!no) ENSURES(out == NULL, "no data"); return; }
	if (r != 0) { ENSURES(vf_live == 0 && out == NULL, "failure leaves no memory behind"); REACH("failed"); return; }
	ENSURES(vf_live == 1 && out == vf_mem, "the buffer is handed over"); ENSURES(len >= 1 && vf_full && (long)len == vf_size, "success only if every byte was read"); ENSURES(vf_cap > (size_t)len && vf_mem[len] == 0, "NUL right after the data"); ENSURES(vf_mem[vf_w] == vf_c, "the bytes in order");
	REACH("read");
}
