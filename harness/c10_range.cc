// Contracts of BeesFileRange / BeesRangePair / BeesFileId.
#include "fdmodel.h"
#include "src/bees-types.cc"
#include "lib/fd.cc"
// Ghost file system: the identity and size of the file behind each descriptor
enum { NFD = 2 }; // two ranges involve at most two descriptors
static uint64_t g_root[NFD], g_ino[NFD]; static int64_t g_fsize[NFD]; static uint64_t g_bad;
extern "C" {
__attribute__((used)) void h_stat_fd(crucible::Stat *self, int fd) { if (fd < 0 || fd >= NFD) { g_bad = 1; throw std::runtime_error("stat"); } self->st_ino = g_ino[fd]; self->st_size = g_fsize[fd]; }
__attribute__((used)) uint64_t h_root_id(int fd) { if (fd < 0 || fd >= NFD) { g_bad = 1; throw std::runtime_error("root id"); } return g_root[fd]; }
}
static void any_fs()
{
	for (int i = 0; i < NFD; ++i) { g_root[i] = vc_nd_range(256, ~0ULL - 256, "root"); g_ino[i] = vc_nd_range(256, ~0ULL - 256, "ino"); g_fsize[i] = vc_nd_range(0, INT64_MAX, "fsize"); }
	// one file has one size
	for (int i = 0; i < NFD; ++i) for (int j = 0; j < i; ++j) vc_assume(g_root[i] != g_root[j] || g_ino[i] != g_ino[j] || g_fsize[i] == g_fsize[j]);
}
struct R { BeesFileRange r; uint64_t root, ino; int64_t fsize; off_t b, e; };
// a range of some file, designated by descriptor or by id
static void any_range(R &x, bool ordered)
{
	const int f = vc_nd_range(0, NFD - 1, "fd");
	x.root = g_root[f]; x.ino = g_ino[f]; x.fsize = g_fsize[f];
	x.b = vc_nd_range(0, INT64_MAX, "begin"); x.e = vc_nd_range(0, INT64_MAX, "end");
	if (ordered) vc_assume(x.b <= x.e);
	if (vc_nd_bool("by id")) x.r = BeesFileRange(BeesFileId(x.root, x.ino), x.b, x.e);
	else x.r = BeesFileRange(Fd(f), x.b, x.e);
}
static void any_fd_range(R &x, bool ordered)
{
	const int f = vc_nd_range(0, NFD - 1, "fd");
	x.root = g_root[f]; x.ino = g_ino[f]; x.fsize = g_fsize[f];
	x.b = vc_nd_range(0, INT64_MAX, "begin"); x.e = vc_nd_range(0, INT64_MAX, "end");
	if (ordered) vc_assume(x.b <= x.e);
	x.r = BeesFileRange(Fd(f), x.b, x.e);
}
static bool same_file(const R &a, const R &b) { return a.root == b.root && a.ino == b.ino; }
static bool unchanged(const R &a) { return a.r.begin() == a.b && a.r.end() == a.e; }

VC_HARNESS(h_range_size)
{
	any_fs(); R a; any_range(a, false);
	vc_assert(unchanged(a), "C10.bounds: a range keeps the bounds it was given");
	off_t s = -1; bool t1 = false, t2 = false, e = false;
	try { s = a.r.size(); } catch (...) { t1 = true; }
	try { e = a.r.empty(); } catch (...) { t2 = true; }
	vc_assert(t1 == (a.b > a.e) && t2 == t1, "C10.inverted: an inverted range has no size");
	if (!t1) { vc_assert(s == a.e - a.b && s >= 0, "C10.size: the size is the distance between the bounds"); vc_assert(e == (a.b == a.e), "C10.empty"); }
	const BeesFileId id = a.r.fid();
	vc_assert(id.root() == a.root && id.ino() == a.ino, "C10.fid: the range identifies its file");
	const BeesFileRange c = a.r.copy_closed();
	vc_assert(c.begin() == a.b && c.end() == a.e && c.fid().root() == a.root && c.fid().ino() == a.ino && !c.fd(), "C10.closed: a closed copy keeps file and bounds and no descriptor");
	vc_assert(!g_bad, "C10.stat: only the range's own descriptor is examined");
	vc_cover("size");
}
VC_HARNESS(h_range_grow)
{
	any_fs(); R a; any_fd_range(a, true);
	const off_t d = vc_nd<off_t>("delta"); bool t = false; off_t rv = 0;
	const bool beg = vc_nd_bool("begin side");
	if (!beg) vc_assume(a.e <= a.fsize && (d <= 0 || d <= INT64_MAX - a.e));
	try { rv = beg ? a.r.grow_begin(d) : a.r.grow_end(d); } catch (...) { t = true; }
	vc_assert(t == (d <= 0), "C10.grow-arg: growing by a positive amount succeeds, anything else is rejected");
	if (t) { vc_assert(unchanged(a), "C10.grow-reject: a rejected growth changes nothing"); return; }
	if (beg) {
		vc_assert(rv == (d < a.b ? a.b - d : 0) && a.r.begin() == rv && a.r.end() == a.e, "C10.grow-begin: the beginning moves down by the amount, at most to zero");
		vc_cover("grow begin");
	} else {
		vc_assert(rv == (a.e + d < a.fsize ? a.e + d : a.fsize) && a.r.end() == rv && a.r.begin() == a.b, "C10.grow-end: the end moves up by the amount, at most to the file size");
		vc_cover("grow end");
	}
	vc_assert(a.r.fid().root() == a.root && a.r.fid().ino() == a.ino, "C10.grow-file: growing keeps the file");
}
VC_HARNESS(h_range_grow_past)
{
	any_fs(); R a; any_fd_range(a, true);
	const off_t d = vc_nd_range(1, INT64_MAX, "delta"); vc_assume(d <= INT64_MAX - a.e);
	try { a.r.grow_end(d); } catch (...) { return; }
	vc_assert(a.r.end() <= a.fsize, "C10.grow-eof: a grown range never ends after the file");
	vc_cover("grown");
}
VC_HARNESS(h_range_shrink)
{
	any_fs(); R a; any_range(a, true); bool t = false;
	const off_t d = vc_nd<off_t>("delta");
	vc_assume(d <= 0 || d <= INT64_MAX - a.b);
	const bool beg = vc_nd_bool("begin side"); off_t rv = 0;
	try { rv = beg ? a.r.shrink_begin(d) : a.r.shrink_end(d); } catch (...) { t = true; }
	if (t) {
		vc_assert(unchanged(a), "C10.shrink-reject: a rejected shrink changes nothing");
		vc_assert(d <= 0 || d >= a.e - a.b, "C10.shrink-ok: shrinking by less than the size is accepted");
		vc_cover("reject");
		return;
	}
	vc_assert(d > 0 && d < a.e - a.b, "C10.shrink-order: a range never shrinks to nothing or inverts");
	if (beg) vc_assert(a.r.begin() == a.b + d && a.r.end() == a.e && rv == a.b + d, "C10.shrink-begin: exactly the bytes at the beginning are removed");
	else vc_assert(a.r.end() == a.e - d && a.r.begin() == a.b && rv == a.e - d, "C10.shrink-end: exactly the bytes at the end are removed");
	vc_cover("shrunk");
}
VC_HARNESS(h_range_overlap)
{
	any_fs(); R a, b; any_range(a, true); any_range(b, true);
	vc_assume(a.b < a.e && b.b < b.e);
	const bool want = same_file(a, b) && a.b < b.e && b.b < a.e;
	vc_assert(a.r.overlaps(b.r) == want, "C10.overlap: nonempty ranges overlap exactly when they share a byte of one file");
	vc_assert(b.r.overlaps(a.r) == want, "C10.overlap-symmetric");
	vc_assert(a.r.is_same_file(b.r) == same_file(a, b), "C10.same-file: two ranges are in one file exactly when the file ids agree");
	const bool eq = same_file(a, b) && a.b == b.b && a.e == b.e;
	vc_assert((a.r == b.r) == eq && (a.r != b.r) == !eq, "C10.equal: ranges are equal exactly when file and bounds are");
	vc_assert(unchanged(a) && unchanged(b), "C10.compare-pure: comparing ranges does not move them");
	if (want) vc_cover("overlap"); else vc_cover("apart");
}
VC_HARNESS(h_range_order)
{
	any_fs(); R a, b, c; any_range(a, true); any_range(b, true);
	const bool ab = a.r < b.r, ba = b.r < a.r;
	vc_assert(!(ab && ba), "C10.order-asymmetric");
	vc_assert((ab || ba) == (a.r != b.r), "C10.order-total: distinct ranges are ordered");
	if (same_file(a, b) && a.b < b.b) vc_assert(ab, "C10.order-offset: ranges of one file are ordered by position");
	vc_cover("order");
}
VC_HARNESS(h_fid_order)
{
	const BeesFileId a(vc_nd<uint64_t>("ar"), vc_nd<uint64_t>("ai")), b(vc_nd<uint64_t>("br"), vc_nd<uint64_t>("bi")), c(vc_nd<uint64_t>("cr"), vc_nd<uint64_t>("ci"));
	vc_assert((a == b) == (a.root() == b.root() && a.ino() == b.ino()) && (a != b) == !(a == b), "C10.fid-equal: file ids are equal exactly when subvolume and inode are");
	vc_assert(!(a < b && b < a) && (a < b || b < a) == (a != b), "C10.fid-order-total");
	vc_assert(!(a < b && b < c) || a < c, "C10.fid-order-transitive");
	vc_assert(bool(a) == (a.root() != 0 && a.ino() != 0), "C10.fid-valid: a file id is set only with both parts");
	vc_cover("fid");
}
VC_HARNESS(h_pair_make)
{
	any_fs(); R a, b; any_range(a, true); any_range(b, true);
	vc_assume(a.b < a.e && b.b < b.e);
	const bool overlap = same_file(a, b) && a.b < b.e && b.b < a.e;
	bool t = false;
	try {
		const BeesRangePair p(a.r, b.r);
		vc_assert(p.first.begin() == a.b && p.first.end() == a.e && p.second.begin() == b.b && p.second.end() == b.e, "C10.pair-bounds: a pair keeps its ranges");
		vc_assert(p.first.fid() == a.r.fid() && p.second.fid() == b.r.fid(), "C10.pair-files: a pair keeps source and destination");
		vc_cover("pair");
	} catch (...) { t = true; }
	vc_assert(t == (overlap || a.e - a.b != b.e - b.b), "C10.pair-valid: exactly the nonoverlapping ranges of equal size form a pair");
}
VC_HARNESS(h_pair_shrink)
{
	any_fs(); R a, b; any_range(a, true); any_range(b, true);
	vc_assume(a.b < a.e && b.e - b.b == a.e - a.b);
	const bool overlap = same_file(a, b) && a.b < b.e && b.b < a.e;
	vc_assume(!overlap);
	const off_t d = vc_nd_range(1, INT64_MAX, "delta"); vc_assume(d <= INT64_MAX - a.b && d <= INT64_MAX - b.b);
	const bool beg = vc_nd_bool("begin side");
	BeesRangePair p(a.r, b.r); bool t = false;
	try { if (beg) p.shrink_begin(d); else p.shrink_end(d); } catch (...) { t = true; }
	vc_assert(p.first.end() - p.first.begin() == p.second.end() - p.second.begin(), "C10.pair-equal: both sides of a pair always have the same size");
	vc_assert(p.first.begin() < p.first.end(), "C10.pair-nonempty: a pair never shrinks to nothing or inverts");
	const off_t db = !t && beg ? d : 0, de = !t && !beg ? d : 0;
	vc_assert(p.first.begin() == a.b + db && p.second.begin() == b.b + db && p.first.end() == a.e - de && p.second.end() == b.e - de, "C10.pair-shrink: both sides shrink at the same end by the same amount, or not at all");
	if (!t) vc_cover("shrunk");
}
