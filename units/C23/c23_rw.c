/*VF
kind: loopinv
src: src/file/file_util.c
functions: file_util_read file_util_write pri_internal_rw_file
unwind: 3
bound: 6
bunwind: 9
assumes: read and write transfer between 1 and the requested number of bytes, or return 0 or -1 (POSIX)
*/
#include "fu.inc"
static ssize_t os_read(int fd, void *b, size_t n), os_write(int fd, const void *b, size_t n);
#define read os_read
#define write os_write
static char *vf_b; static size_t vf_n, vf_done; static bool vf_end;
#define VF_INV_pri_internal_rw_file_1 (cur_char_count >= 0 && (size_t)cur_char_count == vf_done && (vf_done < vf_n || vf_done == 0) && !vf_end)
#define VF_HAV_pri_internal_rw_file_1 vf_done = OFF(vf_n)
#define VF_DEC_pri_internal_rw_file_1 (vf_n - vf_done)
#include "src/file/file_util.c"
#undef read
#undef write
static int vf_fd, vf_calls; static bool vf_rd;
static ssize_t xfer(int fd, const void *b, size_t n, bool rd)
{
	ENSURES(fd == vf_fd && rd == vf_rd && !vf_end, "the right call on the handle, none after an error"); ENSURES((const char *)b == vf_b + vf_done && n == vf_n - vf_done, "the rest of the buffer, in order");
	ssize_t k = (ssize_t)I64(); REQUIRES(k >= -1 && k <= (ssize_t)n); vf_calls++; if (k < 1) vf_end = true; else vf_done += (size_t)k; return k;
}
static ssize_t os_read(int fd, void *b, size_t n) { return xfer(fd, b, n, true); }
static ssize_t os_write(int fd, const void *b, size_t n) { return xfer(fd, b, n, false); }
void vf_harness(void)
{
	vf_n = SZ(0, (size_t)1 << 40); char *dummy = vf_b = BUF(1); vf_done = 0; vf_end = false; vf_calls = 0; vf_fd = 7; vf_rd = BOOL();
	int r = vf_rd ? file_util_read(7, dummy, vf_n) : file_util_write(7, dummy, vf_n);
	ENSURES(r < 0 ? vf_calls == 0 && vf_n > 2147483647 : (size_t)r == vf_done, "the number of bytes transferred");
	ENSURES((r >= 0 && (size_t)r == vf_n) || vf_end || r < 0, "fewer only after the system reported an end or an error"); ENSURES(vf_done <= vf_n, "never more than asked for");
	REACH("transferred");
}
