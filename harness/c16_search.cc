// Contract of the tree search request: everything the kernel returned, nothing else, from inside the reply buffer.
#include "open.h"
#include "lib/fs.cc"
#include "lib/bytevector.cc"
using namespace crucible;
extern "C" {
// ghost kernel reply: g_n items laid out one after another from g_base, ending by g_end
uint8_t *g_base, *g_end; uint64_t g_n, g_i, g_off, g_calls, g_last_rv, g_last_errno, g_cleared, g_asked, g_complete, g_reject; int g_fd;
uint64_t g_minobj, g_maxobj, g_minoff, g_maxoff; uint32_t g_mintype, g_maxtype; uint64_t g_tree;
int vcx_ioctl(int fd, unsigned long req, void *arg)
{
	++g_calls;
	btrfs_ioctl_search_args_v2 *const a = static_cast<btrfs_ioctl_search_args_v2 *>(arg);
	vc_assert(fd == g_fd && req == BTRFS_IOC_TREE_SEARCH_V2, "C16.search-request: a search is sent to the given file system");
	vc_assert(a->key.tree_id == g_tree && a->key.min_objectid == g_minobj && a->key.max_objectid == g_maxobj && a->key.min_type == g_mintype && a->key.max_type == g_maxtype && a->key.min_offset == g_minoff && a->key.max_offset == g_maxoff && a->key.nr_items == g_asked, "C16.search-key: every attempt asks for the caller's keys");
	vc_assert(vc_readable(arg, sizeof(*a) + a->buf_size), "C16.search-room: the kernel is given no more room than there is");
	g_base = static_cast<uint8_t *>(arg) + sizeof(*a); g_end = g_base + a->buf_size; g_off = 0; g_i = 0;
	g_n = 0; g_last_rv = 0; g_last_errno = 0;
	if (vc_nd_bool("fails")) {
		// the kernel leaves the request untouched when it fails
		g_last_rv = 1; g_last_errno = vc_nd_range(1, 133, "errno"); errno = g_last_errno; return -1;
	}
	g_n = vc_nd_range(0, g_asked, "items"); a->key.nr_items = g_n;
	return 0;
}
__attribute__((used)) void h_set_clear(std::set<BtrfsIoctlSearchHeader> *) { g_cleared = 1; g_i = 0; g_off = 0; }
// contract of set_data (its body is verified by h_set_data): the item at the offset, and its end
uint64_t g_obj, g_type, g_itoff, g_len, g_have;
__attribute__((used)) size_t h_set_data(BtrfsIoctlSearchHeader *self, const ByteVector &v, size_t offset)
{
	vc_assert(v.data() + sizeof(btrfs_ioctl_search_args_v2) == g_base && v.size() == size_t(g_end - v.data()), "C16.search-reply: results are taken from the last reply");
	vc_assert(offset == sizeof(btrfs_ioctl_search_args_v2) + g_off, "C16.search-chain: each item starts where the one before it ended");
	vc_assert(!g_last_rv, "C16.search-failed: a failed request yields no items");
	if (vc_nd_bool("bad item")) throw std::invalid_argument("item");
	self->objectid = g_obj = vc_nd<uint64_t>("obj"); self->type = vc_nd<uint32_t>("type"); g_type = self->type; self->offset = g_itoff = vc_nd<uint64_t>("off");
	self->len = vc_nd<uint32_t>("len"); g_len = self->len; self->transid = 1;
	g_off += sizeof(btrfs_ioctl_search_header) + g_len; g_have = 1;
	return offset + sizeof(btrfs_ioctl_search_header) + g_len;
}
struct set_ret { void *a; bool b; };
__attribute__((used)) set_ret h_set_insert(std::set<BtrfsIoctlSearchHeader> *, const BtrfsIoctlSearchHeader &h)
{
	vc_assert(g_have && g_i < g_n, "C16.search-count: only the items the kernel returned are delivered");
	vc_assert(h.objectid == g_obj && h.type == g_type && h.offset == g_itoff && h.len == g_len, "C16.search-item: each delivered item is the next one in the reply");
	++g_i; g_have = 0;
	vc_cover("item");
	return set_ret { nullptr, true };
}
}
static void search(size_t minsize)
{
	BtrfsIoctlSearchKey sk(vc_nd_range(minsize, 1 << 24, "bufsize"));
	sk.tree_id = g_tree = vc_nd<uint64_t>("tree"); sk.min_objectid = g_minobj = vc_nd<uint64_t>("minobj"); sk.max_objectid = g_maxobj = vc_nd<uint64_t>("maxobj");
	sk.min_type = g_mintype = vc_nd<uint32_t>("mintype"); sk.max_type = g_maxtype = vc_nd<uint32_t>("maxtype");
	sk.min_offset = g_minoff = vc_nd<uint64_t>("minoff"); sk.max_offset = g_maxoff = vc_nd<uint64_t>("maxoff");
	sk.nr_items = g_asked = vc_nd_range(1, 1 << 20, "nr");
	g_fd = vc_nd<int>("fd"); g_calls = g_cleared = 0;
	bool threw = false, rv = false;
	try { rv = sk.do_ioctl_nothrow(g_fd); } catch (...) { threw = true; }
	vc_assert(g_calls > 0 && g_cleared, "C16.search-fresh: a search starts without old results");
	if (threw) return;
	if (rv) {
		vc_assert(!g_last_rv || g_last_errno == ENOENT, "C16.search-success: a search succeeds only if the kernel answered or the tree does not exist");
		vc_assert(sk.nr_items == g_n && g_i == g_n, "C16.search-complete: every returned item is delivered");
		if (g_n) vc_cover("items"); else vc_cover("none");
	} else {
		vc_assert(g_last_rv && errno == int(g_last_errno), "C16.search-error: a failure is the kernel's");
		vc_cover("failure");
	}
	vc_assert(sk.tree_id == g_tree && sk.max_objectid == g_maxobj && sk.min_objectid == g_minobj && sk.min_type == g_mintype && sk.max_type == g_maxtype && sk.min_offset == g_minoff && sk.max_offset == g_maxoff, "C16.search-unchanged: the search limits are left alone");
}
// any initial buffer size, any number of attempts, any number of items
VC_HARNESS(h_search) { search(0); }
// one item at any offset of any buffer
VC_HARNESS(h_set_data_body)
{
	const size_t n = vc_nd_range(0, 1 << 24, "n"), off = vc_nd_range(0, 1ULL << 40, "offset"); const ByteVector v(n);
	static BtrfsIoctlSearchHeader h; size_t end = 0; bool t = false;
	const size_t hs = sizeof(btrfs_ioctl_search_header);
	bool ok = n >= hs && off <= n - hs; btrfs_ioctl_search_header k;
	if (ok) { memcpy(&k, v.data() + off, hs); ok = k.len <= n - hs - off; }
	try { end = h.set_data(v, off); } catch (...) { t = true; }
	vc_assert(t == !ok, "C16.item-bounds: an item is accepted exactly if its header and data are inside the reply");
	if (t || !ok) return;
	vc_assert(h.objectid == k.objectid && h.type == k.type && h.offset == k.offset && h.len == k.len && h.transid == k.transid, "C16.item-header: the header is the one in the reply");
	vc_assert(h.m_data.size() == k.len && h.m_data.data() == v.data() + off + hs, "C16.item-data: the data follows the header and has the length it says");
	vc_assert(end == off + hs + k.len, "C16.item-end: the next item starts after the data");
	vc_cover("item");
}
// the next search starts at the key immediately after the last item
static bool le(uint64_t ao, uint32_t at, uint64_t af, uint64_t bo, uint32_t bt, uint64_t bf) { return ao < bo || (ao == bo && (at < bt || (at == bt && af <= bf))); }
VC_HARNESS(h_next_min)
{
	BtrfsIoctlSearchKey sk; BtrfsIoctlSearchHeader h;
	h.objectid = vc_nd<uint64_t>("obj"); h.type = vc_nd_range(0, 255, "type"); h.offset = vc_nd<uint64_t>("off");
	// any key
	const uint64_t ko = vc_nd<uint64_t>("kobj"), kf = vc_nd<uint64_t>("koff"); const uint32_t kt = vc_nd_range(0, 255, "ktype");
	sk.max_objectid = g_maxobj = vc_nd<uint64_t>("maxobj");
	bool t = false; try { sk.next_min(h); } catch (...) { t = true; }
	vc_assert(!t, "C16.next-total: there is a next search position");
	vc_assert(le(sk.min_objectid, sk.min_type, sk.min_offset, ko, kt, kf) == !le(ko, kt, kf, h.objectid, h.type, h.offset), "C16.next: the next search covers exactly the keys after the last item");
	vc_assert(sk.max_objectid == g_maxobj, "C16.next-limit: advancing leaves the upper limit alone");
	vc_cover("next");
}
VC_HARNESS(h_next_min_type)
{
	BtrfsIoctlSearchKey sk; BtrfsIoctlSearchHeader h;
	h.objectid = vc_nd<uint64_t>("obj"); h.type = vc_nd_range(0, 255, "type"); h.offset = vc_nd<uint64_t>("off");
	const uint32_t want = vc_nd_range(0, 255, "want");
	const uint64_t ko = vc_nd<uint64_t>("kobj"), kf = vc_nd<uint64_t>("koff");
	bool t = false; try { sk.next_min(h, want); } catch (...) { t = true; }
	const bool end = h.objectid == ~0ULL && (h.type > want || (h.type == want && h.offset == ~0ULL));
	vc_assert(t == end, "C16.next-type-end: advancing fails exactly at the last possible key");
	if (t) return;
	vc_assert(sk.min_type == want, "C16.next-type: the next search is for the wanted type");
	vc_assert(le(sk.min_objectid, sk.min_type, sk.min_offset, ko, want, kf) == !le(ko, want, kf, h.objectid, h.type, h.offset), "C16.next-type-exact: the next search covers exactly the keys of the type after the last item");
	vc_cover("next");
}
