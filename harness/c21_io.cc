// Contracts of the all-or-throw I/O helpers (lib/fd.cc).
#include "vc.h"
#include "lib/fd.cc"
using namespace crucible;
extern "C" {
char *g_buf; uint64_t g_size, g_done, g_off; int g_fd; uint64_t g_eof, g_calls;
enum { MAX_RW = 0x7ffff000 };
// Kernel contract of read/write/pread/pwrite: transfers a prefix of the request, at most MAX_RW bytes.
static ssize_t xfer(int fd, const void *buf, size_t n)
{
	++g_calls;
	vc_assert(fd == g_fd && fd >= 0, "C21.fd: I/O goes to the caller's open descriptor");
	vc_assert(static_cast<const char *>(buf) == g_buf + g_done, "C21.buf: each transfer continues at the first untransferred byte of the buffer");
	vc_assert(n == g_size - g_done, "C21.size: each transfer asks for exactly the rest of the buffer");
	if (vc_nd_bool("fails")) { errno = vc_nd_range(1, 133, "errno"); return -1; }
	uint64_t lim = n; if (lim > MAX_RW) lim = MAX_RW;
	const uint64_t rv = vc_nd_range(0, lim, "bytes");
	g_done += rv;
	if (rv == 0) g_eof = 1;
	return rv;
}
ssize_t vcx_read(int fd, void *buf, size_t n) { return xfer(fd, buf, n); }
ssize_t vcx_write(int fd, const void *buf, size_t n) { return xfer(fd, buf, n); }
ssize_t vcx_pread64(int fd, void *buf, size_t n, off_t off)
{
	vc_assert(static_cast<uint64_t>(off) == g_off + g_done, "C21.offset: file offset matches the buffer position");
	return xfer(fd, buf, n);
}
ssize_t vcx_pwrite64(int fd, const void *buf, size_t n, off_t off)
{
	vc_assert(static_cast<uint64_t>(off) == g_off + g_done, "C21.offset: file offset matches the buffer position");
	return xfer(fd, buf, n);
}
}
static void setup()
{
	g_fd = vc_nd<int>("fd"); g_size = vc_nd<uint64_t>("size"); g_off = vc_nd<uint64_t>("off");
	// a buffer that exists is smaller than the address space; larger sizes must be rejected before any I/O
	vc_assume(g_size < (1ULL << 47) || g_size > (~0ULL >> 1));
	g_buf = static_cast<char *>(vc_alloc(16));
	g_done = g_eof = g_calls = 0;
}
#define GUARD(call) bool threw = false; try { call; } catch (...) { threw = true; } \
	if (g_fd < 0 || g_size > (~0ULL >> 1)) vc_assert(threw && !g_calls, "C21.reject: closed descriptors and oversized requests are rejected without I/O"); \
	vc_cover("exit"); if (!threw) vc_cover("normal exit")
VC_HARNESS(h_write_or_die) { setup(); GUARD(write_or_die(g_fd, g_buf, g_size));
	vc_assert(threw || g_done == g_size, "C21.all-or-throw: a normal return means every byte was transferred"); }
VC_HARNESS(h_pwrite_or_die) { setup(); GUARD(pwrite_or_die(g_fd, g_buf, g_size, g_off));
	vc_assert(threw || g_done == g_size, "C21.all-or-throw: a normal return means every byte was transferred"); }
VC_HARNESS(h_read_or_die) { setup(); GUARD(read_or_die(g_fd, g_buf, g_size));
	vc_assert(threw || g_done == g_size, "C21.all-or-throw: a normal return means every byte was transferred"); }
VC_HARNESS(h_pread_or_die) { setup(); GUARD(pread_or_die(g_fd, g_buf, g_size, g_off));
	vc_assert(threw || g_done == g_size, "C21.all-or-throw: a normal return means every byte was transferred"); }
VC_HARNESS(h_read_partial) { setup(); size_t got = ~0ULL; GUARD(read_partial_or_die(g_fd, g_buf, g_size, got));
	if (!threw) {
		vc_assert(got == g_done, "C21.count: the byte count reported is the number of bytes read");
		vc_assert(g_done == g_size || g_eof, "C21.short: a short count is returned only at end of file");
	} }
VC_HARNESS(h_write_partial) { setup(); size_t got = ~0ULL; GUARD(write_or_die_partial(g_fd, g_buf, g_size, got));
	if (!threw) vc_assert(got == g_done, "C21.count: the byte count reported is the number of bytes written"); }
