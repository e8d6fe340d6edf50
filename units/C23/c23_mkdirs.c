/*VF
kind: loopinv
src: src/file/file_util.c
functions: file_util_mkdirs
unwind: 2
bound: 5
bunwind: 9
assumes: access and mkdir succeed or fail in any way (POSIX); strlen by its contract in the deductive run; string length below 2^32
*/
#include "fu.inc"
static int os_access(const char *p, int m), os_mkdir(const char *p, mode_t m);
static char *vf_f; static size_t vf_n, vf_w, vf_s, vf_at, vf_end; static bool vf_ok, vf_missing, vf_failed; static int vf_err;
#ifdef VF_UNB
static size_t k_strlen(const char *p) { __CPROVER_assert(p == vf_f, "STUB strlen of the path"); return vf_n; }
#define strlen k_strlen
#endif
#define access os_access
#define mkdir os_mkdir
#define VF_INV_file_util_mkdirs_1 (i <= vf_n && IMPLIES(vf_w < 256, tmp_dir_path[vf_w] == (vf_w < i ? vf_f[vf_w] : 0)) && (vf_at = i, vf_end = i, 1) && !vf_failed && !vf_missing && IMPLIES(vf_s < i, vf_ok || !(vf_f[vf_s] == '/' || vf_f[vf_s] == '\\')) && IMPLIES(vf_s >= i, !vf_ok))
#define VF_HAV_file_util_mkdirs_1 (vf_ok = BOOL(), vf_failed = BOOL(), vf_missing = BOOL())
#define VF_DEC_file_util_mkdirs_1 (vf_n - i)
#include "src/file/file_util.c"
#undef access
#undef mkdir
static void prefix(const char *p)   /* p is folder[0..vf_at], a separator last */
{
#ifndef VF_UNB
	size_t l = vf_nlen(p, vf_n + 1); ENSURES(l > 0 && l <= vf_n && (l > vf_end || (vf_missing && l == vf_end)), "the parents in turn, shortest first"); if (l > vf_end) for (size_t k = vf_end; k + 1 < l; k++) ENSURES(vf_f[k] != '/' && vf_f[k] != '\\', "no parent is skipped"); vf_at = l - 1; vf_end = l;
#endif
	ENSURES(vf_at < vf_n && (vf_f[vf_at] == '/' || vf_f[vf_at] == '\\'), "a parent ends at a separator"); ENSURES(p[vf_at] == vf_f[vf_at], "the prefix up to it"); if (vf_w == vf_at + 1) ENSURES(p[vf_w] == 0, "and nothing more"); if (vf_w < vf_at) ENSURES(p[vf_w] == vf_f[vf_w], "the prefix itself");
}
static int os_access(const char *p, int m)
{
	ENSURES(!vf_failed && !vf_missing && m == 0, "existence is asked once per parent"); prefix(p);
	if (BOOL()) { if (vf_at == vf_s) vf_ok = true; return 0; }
	vf_missing = true; return -1;
}
static int os_mkdir(const char *p, mode_t m)
{
	ENSURES(!vf_failed && vf_missing, "only a missing directory is created"); ENSURES((m & 0700) == 0700, "usable by the owner"); prefix(p); vf_missing = false;
	if (BOOL()) { vf_failed = true; return vf_err = -1; }
	if (vf_at == vf_s) vf_ok = true; return 0;
}
void vf_harness(void)
{
	vf_n = SZ(0, 0x100000000); vf_f = BUFA(vf_n + 1, "a/\\"); vf_f[vf_n] = 0; vf_w = RANGE(0, vf_n); vf_s = RANGE(0, vf_n); if (vf_w < vf_n) REQUIRES(vf_f[vf_w] != 0); if (vf_s < vf_n) REQUIRES(vf_f[vf_s] != 0);
#ifndef VF_UNB
	for (size_t k = 0; k < vf_n; k++) REQUIRES(vf_f[k] != 0);
#endif
	vf_ok = vf_missing = vf_failed = false; vf_at = vf_end = 0; char cw = vf_f[vf_w]; bool null = BOOL() && BOOL();
	int r = file_util_mkdirs(null ? NULL : vf_f);
	ENSURES(vf_f[vf_w] == cw, "the path is only read");
	if (null) { ENSURES(r < 0, "NULL is refused"); return; }
	if (vf_n > 255) { ENSURES(r < 0 && !vf_ok && !vf_failed && !vf_missing, "a path that does not fit is refused"); return; }
	ENSURES(r == (vf_failed ? vf_err : 0), "success only if no directory failed"); ENSURES(!vf_missing, "every missing directory is created");
	if (r == 0 && vf_s < vf_n && (vf_f[vf_s] == '/' || vf_f[vf_s] == '\\')) { ENSURES(vf_ok, "every parent exists afterwards"); REACH("parent"); }
}
