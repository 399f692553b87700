// Contracts of ByteVector and of the btrfs item decoders (lib/bytevector.cc, lib/btrfs-tree.cc, include/crucible/fs.h).
#include "open.h"
#include "crucible/btrfs-tree.h"
#include "crucible/endian.h"
#include "lib/bytevector.cc"
#include "lib/btrfs-tree.cc"
using namespace crucible;
extern "C" {
uint8_t *g_name_b, *g_name_e;
__attribute__((used)) void h_string_range(std::string *self, uint8_t *b, uint8_t *e, const void *) { g_name_b = b; g_name_e = e; if (!vc_symbolic()) new (self) std::string(); }
}
enum { MAXLEN = 1 << 20 }; // sizes are symbolic; the largest btrfs item is 64K

VC_HARNESS(h_bv_sub)
{
	const size_t n = vc_nd_range(1, MAXLEN, "n"), start = vc_nd<size_t>("start"), len = vc_nd<size_t>("len");
	const ByteVector v(n); bool t = false;
	vc_assert(v.size() == n && v.end() == v.begin() + n && v.begin() == v.data() && !v.empty(), "C16.size: a buffer has the size it was given");
	try {
		const ByteVector w = v.at(start, len);
		vc_assert(start <= n && len <= n - start, "C16.sub-bounds: a part of a buffer lies inside the buffer");
		vc_assert(w.size() == len && w.data() == v.data() + start, "C16.sub-exact: a part is exactly the requested bytes");
		vc_cover("sub");
	} catch (...) { t = true; }
	vc_assert(t == !(start <= n && len <= n - start), "C16.sub-total: exactly the parts inside the buffer are accepted");
	bool t2 = false; size_t off = 0;
	try { off = &v.at(start) - v.data(); } catch (...) { t2 = true; }
	vc_assert(t2 == (start >= n) && (t2 || off == start), "C16.at: an element is found exactly if its index is below the size");
	const ByteVector e; bool t3 = false;
	try { e.at(start, len); } catch (...) { t3 = true; }
	vc_assert(t3 && e.empty() && e.size() == 0, "C16.null: an empty buffer has no parts");
}
VC_HARNESS(h_bv_get)
{
	const size_t n = vc_nd_range(0, MAXLEN, "n"); const ByteVector v(n); bool t = false;
	try { v.get<btrfs_file_extent_item>(); } catch (...) { t = true; }
	vc_assert(t == (n < sizeof(btrfs_file_extent_item)), "C16.get: a buffer is viewed as a structure only if it is large enough");
	btrfs_root_ref r; r.dirid = vc_nd<uint64_t>("dirid"); r.sequence = vc_nd<uint64_t>("seq"); r.name_len = vc_nd<uint16_t>("len");
	const ByteVector w(r, n);
	vc_assert(w.size() == (n > sizeof(r) ? n : sizeof(r)), "C16.object-size: a buffer made from a structure has room for it and at least the minimum size");
	const btrfs_root_ref *p = w.get<btrfs_root_ref>();
	vc_assert(p->dirid == r.dirid && p->sequence == r.sequence && p->name_len == r.name_len, "C16.object-value: a buffer made from a structure holds it");
	vc_cover("get");
}
VC_HARNESS(h_bv_copy)
{
	const size_t n = vc_nd_range(1, MAXLEN, "n"), m = vc_nd_range(1, MAXLEN, "m"); ByteVector v(n), w(m);
	const ByteVector c(v);
	vc_assert(c.size() == n && c.data() == v.data(), "C16.copy: a copy designates the same bytes");
	w = v;
	vc_assert(w.size() == n && w.data() == v.data(), "C16.assign: assignment designates the same bytes");
	w = w;
	vc_assert(w.size() == n && w.data() == v.data(), "C16.self-assign: self assignment changes nothing");
	const size_t k = vc_nd_range(0, MAXLEN, "k"), i = vc_nd_range(0, MAXLEN, "i"); vc_assume(i < n);
	uint8_t *const b = v.begin(), *const e = v.end();
	const uint8_t x = vc_nd<uint8_t>("x"); v[i] = x;
	const ByteVector d(b, e, k);
	vc_assert(d.size() == (n > k ? n : k) && d.data() != b, "C16.clone-size: a duplicate has the size of the original and at least the minimum");
	vc_assert(d[i] == x, "C16.clone: a duplicate has the same bytes");
	v.clear();
	vc_assert(v.empty() && v.size() == 0 && w.size() == n && w[i] == x, "C16.clear: clearing one buffer leaves its copies alone");
	vc_cover("copy");
}
VC_HARNESS(h_bv_erase)
{
	const size_t n = vc_nd_range(1, MAXLEN, "n"), f = vc_nd_range(0, MAXLEN, "f"), l = vc_nd_range(0, MAXLEN, "l"); vc_assume(f <= l && l <= n);
	ByteVector v(n); uint8_t *const b = v.begin(); bool t = false;
	try { v.erase(b + f, b + l); } catch (...) { t = true; }
	vc_assert(t == (f != l && f != 0 && l != n), "C16.erase-where: exactly the bytes at the beginning or the end can be erased");
	if (t || f == l) { vc_assert(v.size() == n && v.begin() == b, "C16.erase-reject: nothing changes otherwise"); return; }
	vc_assert(v.size() == n - (l - f), "C16.erase-size: erasing removes exactly the given bytes");
	if (v.size()) vc_assert(v.begin() == (f == 0 ? b + l : b), "C16.erase-keep: erasing keeps the other bytes");
	vc_cover("erase");
}
#define FIELD(T, m) struct T, m
// One accessor against its field: throws unless the item has the type and the
// field lies inside the item's data; otherwise returns the little-endian field.
struct Item { BtrfsTreeItem i; size_t n; const uint8_t *d; uint8_t type; };
static BtrfsIoctlSearchHeader *any_header(size_t &n)
{
	static BtrfsIoctlSearchHeader h;
	n = vc_nd_range(0, MAXLEN, "datalen");
	h.objectid = vc_nd<uint64_t>("objectid"); h.offset = vc_nd<uint64_t>("offset"); h.type = vc_nd<uint32_t>("type"); h.transid = vc_nd<uint64_t>("transid"); h.len = n;
	h.m_data = ByteVector(n);
	return &h;
}
template <class F> static F rd(const ByteVector &v, size_t off) { F f; memcpy(&f, v.data() + off, sizeof(f)); return f; }
#define CHECK_FIELD(acc, itemtype, T, fld, U) do { \
	bool t = false; uint64_t r = 0; \
	try { r = uint64_t(it.acc()); } catch (...) { t = true; } \
	const bool ok = it.type() == (itemtype) && n >= offsetof(T, fld) + sizeof(U); \
	vc_assert(t == !ok, "C16." #acc "-guard: a field is read only from an item of its type and only inside the item's data"); \
	if (!t && ok) { vc_assert(r == le_to_cpu(rd<U>(d, offsetof(T, fld))), "C16." #acc ": the field is decoded exactly"); vc_cover(#acc); } \
} while (0)
#define ITEM size_t n; BtrfsIoctlSearchHeader *const h = any_header(n); const BtrfsTreeItem it(*h); const ByteVector d = it.data();
VC_HARNESS(h_item_key)
{
	ITEM
	vc_assert(it.objectid() == h->objectid && it.offset() == h->offset && it.transid() == h->transid && it.type() == uint8_t(h->type), "C16.key: an item keeps its key");
	vc_assert(d.size() == n && d.data() == h->m_data.data(), "C16.data: an item keeps its data");
	bool t = false; uint64_t b = 0, e = 0;
	try { b = it.extent_begin(); e = it.extent_end(); } catch (...) { t = true; }
	vc_assert(t == (it.type() != BTRFS_EXTENT_ITEM_KEY) && (t || (b == h->objectid && e == h->objectid + h->offset)), "C16.extent-bounds: an extent item spans its key's position and length");
	bool t2 = false; uint64_t p = 0;
	try { p = it.root_ref_parent_rootid(); } catch (...) { t2 = true; }
	vc_assert(t2 == (it.type() != BTRFS_ROOT_BACKREF_KEY) && (t2 || p == h->offset), "C16.backref-parent: a subvolume back reference names its parent in the key");
	vc_assert(it.operator!() == (!h->transid && !h->objectid && !h->offset && !uint8_t(h->type)), "C16.valid: only the all-zero item is no item");
	vc_cover("key");
}
VC_HARNESS(h_item_extent) { ITEM
	CHECK_FIELD(extent_flags, BTRFS_EXTENT_ITEM_KEY, btrfs_extent_item, flags, uint64_t); CHECK_FIELD(extent_generation, BTRFS_EXTENT_ITEM_KEY, btrfs_extent_item, generation, uint64_t); }
VC_HARNESS(h_item_root) { ITEM
	CHECK_FIELD(root_ref_dirid, BTRFS_ROOT_BACKREF_KEY, btrfs_root_ref, dirid, uint64_t); CHECK_FIELD(root_flags, BTRFS_ROOT_ITEM_KEY, btrfs_root_item, flags, uint64_t); CHECK_FIELD(root_refs, BTRFS_ROOT_ITEM_KEY, btrfs_root_item, refs, uint32_t); }
VC_HARNESS(h_item_chunk) { ITEM
	CHECK_FIELD(block_group_flags, BTRFS_BLOCK_GROUP_ITEM_KEY, btrfs_block_group_item, flags, uint64_t); CHECK_FIELD(block_group_used, BTRFS_BLOCK_GROUP_ITEM_KEY, btrfs_block_group_item, used, uint64_t);
	CHECK_FIELD(chunk_length, BTRFS_CHUNK_ITEM_KEY, btrfs_chunk, length, uint64_t); CHECK_FIELD(chunk_type, BTRFS_CHUNK_ITEM_KEY, btrfs_chunk, type, uint64_t); }
VC_HARNESS(h_item_dev) { ITEM
	CHECK_FIELD(dev_extent_chunk_offset, BTRFS_DEV_EXTENT_KEY, btrfs_dev_extent, chunk_offset, uint64_t); CHECK_FIELD(dev_extent_length, BTRFS_DEV_EXTENT_KEY, btrfs_dev_extent, length, uint64_t);
	CHECK_FIELD(dev_item_total_bytes, BTRFS_DEV_ITEM_KEY, btrfs_dev_item, total_bytes, uint64_t); CHECK_FIELD(dev_item_bytes_used, BTRFS_DEV_ITEM_KEY, btrfs_dev_item, bytes_used, uint64_t); }
VC_HARNESS(h_item_inode) { ITEM
	CHECK_FIELD(inode_size, BTRFS_INODE_ITEM_KEY, btrfs_inode_item, size, uint64_t); CHECK_FIELD(inode_flags, BTRFS_INODE_ITEM_KEY, btrfs_inode_item, flags, uint64_t); }
VC_HARNESS(h_item_file) { ITEM
	CHECK_FIELD(file_extent_generation, BTRFS_EXTENT_DATA_KEY, btrfs_file_extent_item, generation, uint64_t);
	CHECK_FIELD(file_extent_type, BTRFS_EXTENT_DATA_KEY, btrfs_file_extent_item, type, uint8_t);
	CHECK_FIELD(file_extent_compression, BTRFS_EXTENT_DATA_KEY, btrfs_file_extent_item, compression, uint8_t); }
// fields whose meaning depends on the kind of file extent
#define FX(m) (offsetof(btrfs_file_extent_item, m))
static void file_kind(int which)
{
	ITEM
	bool t = false; uint64_t r = 0;
	try { r = which == 0 ? it.file_extent_logical_bytes() : which == 1 ? it.file_extent_offset() : it.file_extent_bytenr(); } catch (...) { t = true; }
	bool ok = it.type() == BTRFS_EXTENT_DATA_KEY && n > FX(type);
	uint64_t want = 0;
	if (ok) {
		const uint8_t k = rd<uint8_t>(d, FX(type));
		const bool reg = k == BTRFS_FILE_EXTENT_REG || k == BTRFS_FILE_EXTENT_PREALLOC, inl = k == BTRFS_FILE_EXTENT_INLINE;
		const size_t off = which == 0 ? (inl ? FX(ram_bytes) : FX(num_bytes)) : which == 1 ? FX(offset) : FX(disk_bytenr);
		ok = (reg || (inl && which == 0)) && n >= off + 8;
		if (ok) want = rd<uint64_t>(d, off);
	}
	vc_assert(t == !ok, "C16.file-extent-guard: position and length are read only from complete file extent items of a kind that has them");
	if (!t && ok) { vc_assert(r == want, "C16.file-extent: the field that applies to the kind of extent is decoded exactly"); vc_cover("kind"); }
}
VC_HARNESS(h_item_file_len) { file_kind(0); }
VC_HARNESS(h_item_file_off) { file_kind(1); }
VC_HARNESS(h_item_file_pos) { file_kind(2); }
VC_HARNESS(h_item_name)
{
	ITEM
	bool t = false; g_name_b = g_name_e = nullptr;
	try { it.root_ref_name(); } catch (...) { t = true; }
	bool ok = it.type() == BTRFS_ROOT_BACKREF_KEY && n >= offsetof(btrfs_root_ref, name_len) + 2;
	size_t len = 0;
	if (ok) { len = rd<uint16_t>(d, offsetof(btrfs_root_ref, name_len)); ok = n >= sizeof(btrfs_root_ref) + len; }
	vc_assert(t == !ok, "C16.name-guard: a name is read only inside the item's data");
	if (!t && ok) { vc_assert(g_name_b == d.data() + sizeof(btrfs_root_ref) && g_name_e == g_name_b + len, "C16.name: the name is the bytes after the header, as many as the header says"); vc_cover("name"); }
}
