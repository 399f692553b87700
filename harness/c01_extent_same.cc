// Contract of crucible::btrfs_extent_same (lib/fs.cc), the only function that
// asks the kernel to replace user data references.
#include "vc.h"
#include "lib/fs.cc"
#include "lib/bytevector.cc"
using namespace crucible;

extern "C" {
uint64_t g_done;                 // ghost: bytes the kernel reported deduped so far
uint64_t g_differs;              // ghost: kernel reported "data differs"
int g_src_fd, g_dst_fd;
uint64_t g_src, g_dst, g_len;

// Assumed kernel contract for FIDEDUPERANGE, and the caller-side obligations.
int vcx_ioctl(int fd, unsigned long req, void *arg)
{
	vc_assert(req == BTRFS_IOC_FILE_EXTENT_SAME, "C01.request: only the compare-and-dedupe ioctl is issued");
	auto *const a = static_cast<btrfs_ioctl_same_args *>(arg);
	vc_assert(fd == g_src_fd, "C01.src-fd: source is the caller's source file");
	vc_assert(a->dest_count == 1, "C01.dest-count: exactly one destination");
	vc_assert(a->logical_offset == g_src + g_done, "C01.src-range: next source byte follows the deduped prefix");
	vc_assert(a->length > 0 && a->length <= g_len - g_done, "C01.length: request stays inside the caller's range");
	vc_assert(a->info[0].fd == g_dst_fd, "C01.dst-fd: destination is the caller's destination file");
	vc_assert(a->info[0].logical_offset == g_dst + g_done, "C01.dst-range: destination offset advances with the source");
	vc_assert(a->reserved1 == 0 && a->reserved2 == 0 && a->info[0].reserved == 0, "C01.reserved: reserved fields are zero");
	if (vc_nd_bool("ioctl_fails")) {
		errno = vc_nd_range(1, 133, "errno");
		return -1;
	}
	const int32_t status = vc_nd<int32_t>("status");
	vc_assume(status <= 1);
	a->info[0].status = status;
	if (status == 0) {
		const uint64_t n = vc_nd_range(0, a->length, "bytes_deduped");
		a->info[0].bytes_deduped = n;
		g_done += n;
	} else {
		a->info[0].bytes_deduped = 0;
		if (status == 1) g_differs = 1;
	}
	return 0;
}
}

VC_HARNESS(h_extent_same)
{
	g_done = 0; g_differs = 0;
	g_src_fd = vc_nd<int>("src_fd"); g_dst_fd = vc_nd<int>("dst_fd");
	const off_t src = vc_nd<off_t>("src"), dst = vc_nd<off_t>("dst"), len = vc_nd<off_t>("len");
	g_src = src; g_dst = dst; g_len = len;
	vc_assume(src >= 0 && dst >= 0);
	vc_assume(len <= std::numeric_limits<off_t>::max() - src && len <= std::numeric_limits<off_t>::max() - dst);
	bool threw = false, rv = false;
	try {
		rv = btrfs_extent_same(g_src_fd, src, len, g_dst_fd, dst);
	} catch (...) { threw = true; }
	vc_cover("C01.exit");
	if (!threw) {
		vc_assert(!rv || g_done == g_len, "C01.complete: success means every byte of the range was deduped");
		vc_assert(rv || g_differs, "C01.differs: failure is reported only when the kernel said the data differs");
		vc_assert(!(rv && g_differs), "C01.no-false-success: differing data is never reported as deduped");
		vc_assert(len > 0, "C01.empty: empty or negative ranges are rejected");
		if (rv) vc_cover("C01.true");
		else vc_cover("C01.false");
	}
}
