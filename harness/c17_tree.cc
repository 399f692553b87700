// Contracts of the tree fetchers: the item asked for, and no item of another kind; nothing the tree has is passed over.
#include "fdmodel.h"
#include "lib/btrfs-tree.cc"
#include "lib/error.cc"
#include "lib/fd.cc"
#include "lib/bytevector.cc"
using namespace crucible;
typedef std::set<BtrfsIoctlSearchHeader> Set;
struct Node { char h[32]; BtrfsIoctlSearchHeader v; };
extern "C" {
// ghost tree: one arbitrary item of it
uint64_t q_pos, w_exists, w_obj, w_off, w_type;
uint64_t g_kind, g_tree, g_tmin, g_tmax, g_calls, g_nonempty, g_left, g_first, g_incs, g_has;
uint64_t lo_obj, lo_off, lo_type, hi_obj, hi_off, hi_type, last_obj, last_off, last_type, q_obj;
uint8_t q_type;
alignas(16) char g_node[sizeof(Node)];
BtrfsIoctlSearchKey *g_sk;
static BtrfsIoctlSearchHeader &cur() { return reinterpret_cast<Node *>(g_node)->v; }
static bool le(uint64_t ao, uint64_t at, uint64_t af, uint64_t bo, uint64_t bt, uint64_t bf) { return ao < bo || (ao == bo && (at < bt || (at == bt && af <= bf))); }
static bool lt(uint64_t ao, uint64_t at, uint64_t af, uint64_t bo, uint64_t bt, uint64_t bf) { return !le(bo, bt, bf, ao, at, af); }
// the item is one that was asked for
static bool wanted(uint64_t obj, uint64_t type) { return type == q_type && (g_kind != 1 || obj == q_obj); }
static bool w_in() { return w_exists && le(lo_obj, lo_type, lo_off, w_obj, w_type, w_off) && le(w_obj, w_type, w_off, hi_obj, hi_type, hi_off); }
// the next item of the reply: no item of the tree between it and the one before
static bool deliver()
{
	BtrfsIoctlSearchHeader &c = cur();
	if (vc_nd_bool("this")) { c.objectid = w_obj; c.type = w_type; c.offset = w_off; }
	else { c.objectid = vc_nd_range(lo_obj, hi_obj, "objectid"); c.type = vc_nd_range(0, 255, "type"); c.offset = vc_nd<uint64_t>("offset"); }
	c.transid = vc_nd_range(1, ~0ULL >> 1, "transid"); c.len = 0;
	return le(lo_obj, lo_type, lo_off, c.objectid, c.type, c.offset) && le(c.objectid, c.type, c.offset, hi_obj, hi_type, hi_off) && (!w_in() || le(c.objectid, c.type, c.offset, w_obj, w_type, w_off));
}
static void after() { const BtrfsIoctlSearchHeader &c = cur(); lo_obj = c.objectid; lo_type = c.type; lo_off = c.offset; if (++lo_off == 0 && ++lo_type == 256) { lo_type = 0; ++lo_obj; } }
__attribute__((used)) void h_do_ioctl(BtrfsIoctlSearchKey *k, int fd)
{
	vc_assert(fd == 5 && k == g_sk, "C17.fs: the file system is the one the fetcher was made for");
	vc_assert(k->tree_id == g_tree && g_tree, "C17.tree: the tree asked for is searched");
	vc_assert(k->min_transid == g_tmin && k->max_transid == g_tmax, "C17.transid: the transaction range asked for is searched");
	vc_assert(k->nr_items >= 1, "C17.some: a search can return an item");
	vc_assert(!g_calls || lt(last_obj, last_type, last_off, k->min_objectid, k->min_type, k->min_offset), "C17.forward: each search starts after the one before");
	lo_obj = k->min_objectid; lo_type = k->min_type; lo_off = k->min_offset; hi_obj = k->max_objectid; hi_type = k->max_type; hi_off = k->max_offset;
	last_obj = lo_obj; last_type = lo_type; last_off = lo_off;
	g_calls = 1; g_incs = 0; g_left = k->nr_items;
	if (vc_nd_bool("fails")) throw std::system_error(std::error_code(5, std::generic_category()), "search");
	g_nonempty = g_has = vc_nd_bool("any");
	if (g_has) vc_assume(deliver()); else vc_assume(!w_in());
	k->nr_items = g_has ? 1 + (g_left > 1 && vc_nd_bool("more items") ? 1 : 0) : 0;
	vc_cover("search");
}
static void *header(const Set *s) { return const_cast<void *>(static_cast<const void *>(&s->_M_t._M_impl._M_header)); }
__attribute__((used)) void *h_begin(const Set *s) { return g_has ? static_cast<void *>(g_node) : header(s); }
__attribute__((used)) void *h_end(const Set *s) { return header(s); }
__attribute__((used)) bool h_empty(const Set *) { return !g_nonempty; }
__attribute__((used)) size_t h_size(const Set *) { return g_sk->nr_items; }
__attribute__((used)) void *h_inc(void *p)
{
	vc_assert(p == g_node && g_has, "C17.end: items are taken from the reply");
	after(); ++g_incs; --g_left;
	g_has = g_left && (lo_obj || lo_type || lo_off) && vc_nd_bool("more");
	if (!g_has) return header(&g_sk->m_result);
	vc_assume(deliver()); return g_node;
}
static uint64_t pos(uint64_t obj, uint64_t off) { return g_kind == 1 ? off : obj; }
// an item of the tree that answers the question
static bool elig() { return w_exists && wanted(w_obj, w_type) && pos(w_obj, w_off) >= q_pos; }
static bool sk_ok()
{
	return g_sk->tree_id == g_tree && g_tree && g_sk->min_transid == g_tmin && g_sk->max_transid == g_tmax && g_sk->max_offset == ~0ULL && g_sk->nr_items <= 1 &&
		g_sk->max_type == q_type && g_sk->max_objectid == (g_kind == 1 ? q_obj : ~0ULL) && g_sk->min_type <= 255 &&
		(!elig() || le(g_sk->min_objectid, g_sk->min_type, g_sk->min_offset, w_obj, w_type, w_off)) &&
		// nothing before the position asked for is looked at
		g_sk->min_type == q_type && (g_kind == 1 ? g_sk->min_objectid >= q_obj && (g_sk->min_objectid > q_obj || g_sk->min_offset >= q_pos) : g_sk->min_objectid >= q_pos);
}
bool inv_outer() { return g_calls <= 1 && sk_ok() && g_sk->nr_items == 1 && (!g_calls || lt(last_obj, last_type, last_off, g_sk->min_objectid, g_sk->min_type, g_sk->min_offset)); }
bool inv_inner() { return !g_calls || (sk_ok() && g_sk->nr_items == g_nonempty && g_nonempty <= 1 && hi_obj == g_sk->max_objectid && hi_type == q_type && hi_off == ~0ULL && (g_incs ? lt(last_obj, last_type, last_off, g_sk->min_objectid, g_sk->min_type, g_sk->min_offset) : last_obj == g_sk->min_objectid && last_type == g_sk->min_type && last_off == g_sk->min_offset && lo_obj == last_obj && lo_type == last_type && lo_off == last_off && (g_has || !elig()))); }
bool inv_item(const void *p) { return g_calls == 1 && g_left <= 1 && g_has <= g_left && g_incs <= 1 && g_incs + g_left == 1 && (g_incs ? g_nonempty : g_has == g_nonempty) && p == (g_has ? static_cast<void *>(g_node) : header(&g_sk->m_result)) && (!g_has || (le(lo_obj, lo_type, lo_off, cur().objectid, cur().type, cur().offset) && le(cur().objectid, cur().type, cur().offset, hi_obj, hi_type, hi_off) && cur().type <= 255 && (!elig() || le(cur().objectid, cur().type, cur().offset, w_obj, w_type, w_off)))); }
void hav() { hi_obj = vc_nd<uint64_t>("ho"); hi_type = vc_nd<uint8_t>("ht"); hi_off = vc_nd<uint64_t>("hf"); cur().transid = vc_nd_range(1, ~0ULL >> 1, "tr"); last_obj = vc_nd<uint64_t>("lo"); last_type = vc_nd<uint8_t>("lt"); last_off = vc_nd<uint64_t>("lf"); lo_obj = vc_nd<uint64_t>("bo"); lo_type = vc_nd<uint8_t>("bt"); lo_off = vc_nd<uint64_t>("bf"); BtrfsIoctlSearchHeader &c = cur(); c.objectid = vc_nd<uint64_t>("co"); c.type = vc_nd<uint8_t>("ct"); c.offset = vc_nd<uint64_t>("cf"); g_sk->min_objectid = vc_nd<uint64_t>("ko"); g_sk->min_type = vc_nd<uint8_t>("kt"); g_sk->min_offset = vc_nd<uint64_t>("kf"); g_sk->nr_items = vc_nd_bool("kn"); }
// contract of next_min (proved in C16): the least key of the type after the item; none after the last
__attribute__((used)) void h_next_min(BtrfsIoctlSearchKey *k, const BtrfsIoctlSearchHeader &h, uint8_t type)
{
	const bool here = h.type < type, same = h.type == type && h.offset != ~0ULL;
	if (!here && !same && h.objectid == ~0ULL) throw std::out_of_range("next_min");
	k->min_objectid = here || same ? h.objectid : h.objectid + 1; k->min_type = type; k->min_offset = same ? h.offset + 1 : 0;
}
__attribute__((used)) void h_set_gone(Set *) { }
alignas(16) void *g_dbg[2];
__attribute__((used)) void *h_dbg() { return g_dbg; }
__attribute__((used)) void h_fs_info(BtrfsIoctlFsInfoArgs *a, int) { a->sectorsize = 4096; }
}
static void start(BtrfsTreeFetcher &f, uint64_t kind)
{
	g_kind = kind; g_sk = &f.m_sk; g_calls = g_incs = g_left = g_has = g_nonempty = 0;
	f.tree(g_tree = vc_nd<uint64_t>("tree")); f.type(q_type = vc_nd_range(1, 255, "type")); f.transid(g_tmin = vc_nd<uint64_t>("min"), g_tmax = vc_nd<uint64_t>("max"));
	w_exists = vc_nd_bool("exists"); w_obj = vc_nd<uint64_t>("wobj"); w_type = vc_nd_range(0, 255, "wtype"); w_off = vc_nd<uint64_t>("woff");
	q_pos = vc_nd<uint64_t>("position");
}
static void check(bool threw, const BtrfsTreeItem &r, bool exact)
{
	if (threw) return;
	vc_assert(g_calls, "C17.search: the file system is asked");
	if (!r) {
		vc_assert(!elig() || (exact && pos(w_obj, w_off) != q_pos), "C17.found: an item of the tree that was asked for is found");
		vc_cover("none");
		return;
	}
	vc_assert(wanted(r.objectid(), r.type()), "C17.kind: what is found is of the kind and object asked for");
	vc_assert(exact ? pos(r.objectid(), r.offset()) == q_pos : pos(r.objectid(), r.offset()) >= q_pos, "C17.position: what is found is at the position asked for or after it");
	vc_assert(!elig() || le(r.objectid(), r.type(), r.offset(), w_obj, w_type, w_off), "C17.nearest: no item asked for lies before the one found");
	vc_assert(g_has && r.objectid() == cur().objectid && r.type() == cur().type && r.offset() == cur().offset && r.transid() == cur().transid, "C17.item: what is found is an item of the tree");
	vc_cover("found");
}
static void lower(BtrfsTreeFetcher &f, uint64_t kind)
{
	start(f, kind); bool t = false; BtrfsTreeItem r;
	try { r = f.lower_bound(q_pos); } catch (...) { t = true; }
	check(t, r, false);
}
static void at(BtrfsTreeFetcher &f, uint64_t kind)
{
	start(f, kind); bool t = false; BtrfsTreeItem r;
	try { r = f.at(q_pos); } catch (...) { t = true; }
	check(t, r, true);
}
static Fd fs() { Fd f; fd_model(&f, 5); return f; }
VC_HARNESS(h_lower_object) { BtrfsTreeObjectFetcher f(fs()); lower(f, 0); }
VC_HARNESS(h_lower_offset) { BtrfsTreeOffsetFetcher f(fs()); f.objectid(q_obj = vc_nd<uint64_t>("object")); lower(f, 1); }
VC_HARNESS(h_at_object) { BtrfsTreeObjectFetcher f(fs()); at(f, 0); }
VC_HARNESS(h_at_offset) { BtrfsTreeOffsetFetcher f(fs()); f.objectid(q_obj = vc_nd<uint64_t>("object")); at(f, 1); }
// ---- positions after and before
extern "C" {
uint64_t g_asked, g_ask, g_dir;
__attribute__((used)) BtrfsTreeItem h_lower(BtrfsTreeFetcher *, uint64_t p) { ++g_asked; g_ask = p; g_dir = 1; BtrfsTreeItem i; i.m_transid = 7; return i; }
__attribute__((used)) BtrfsTreeItem h_rlower(BtrfsTreeFetcher *, uint64_t p) { ++g_asked; g_ask = p; g_dir = 2; BtrfsTreeItem i; i.m_transid = 7; return i; }
}
static void steps(const uint64_t scale)
{
	BtrfsTreeObjectFetcher f(fs()); f.scale_size(scale);
	const uint64_t u = scale == 1 ? vc_nd<uint64_t>("position") : vc_nd_range(0, 1ULL << 63, "position"), l = scale == 1 ? u : u & ~(scale - 1); // a multiple of the step
	const bool fwd = vc_nd_bool("next"); g_asked = 0; bool t = false; BtrfsTreeItem r;
	try { r = fwd ? f.next(l) : f.prev(l); } catch (...) { t = true; }
	vc_assert(!t, "C17.step-total: there is an answer for every position");
	if (fwd ? l == ~0ULL : l < scale) { if (!g_asked) vc_assert(!r, "C17.step-none: nothing is made up"); vc_cover("edge"); return; }
	vc_assert(g_asked == 1 && g_dir == (fwd ? 1 : 2) && g_ask == (fwd ? l + scale : l - scale), "C17.step: the search starts at the position right after or before the one given");
	vc_assert(r.transid() == 7, "C17.step-item: what was found is returned");
	vc_cover("step");
}
VC_HARNESS(h_steps_1) { steps(1); }
VC_HARNESS(h_steps_4k) { steps(4096); }
VC_HARNESS(h_steps_64k) { steps(65536); }
// ---- inodes, subvolumes and their names
extern "C" {
uint64_t g_at, g_at_tree, g_at_type, g_at_none, g_at_obj, g_at_ty, g_made;
__attribute__((used)) BtrfsTreeItem h_at(BtrfsTreeFetcher *f, uint64_t p)
{
	++g_asked; g_at = p; g_at_tree = f->tree(); g_at_type = f->type();
	BtrfsTreeItem i; if (g_at_none) return i;
	i.m_objectid = p; i.m_type = f->type(); i.m_transid = 7; i.m_offset = vc_nd<uint64_t>("offset"); return i;
}
}
VC_HARNESS(h_named)
{
	const uint64_t sub = vc_nd<uint64_t>("subvol"), ino = vc_nd<uint64_t>("inode"); const unsigned k = vc_nd_range(0, 2, "what");
	g_asked = 0; g_at_none = vc_nd_bool("none"); BtrfsTreeItem r; bool t = false;
	BtrfsInodeFetcher fi(fs()); BtrfsRootFetcher fr(fs());
	// whatever was asked before
	if (vc_nd_bool("before")) { try { fi.stat(vc_nd<uint64_t>("a"), 1); fr.root_backref(2); fr.root(3); } catch (...) { } }
	g_asked = 0;
	try { r = k == 0 ? fi.stat(sub, ino) : k == 1 ? fr.root(sub) : fr.root_backref(sub); } catch (...) { t = true; }
	vc_assert(!t && g_asked == 1, "C17.named-asked: the tree is searched");
	vc_assert(k ? g_at_tree == BTRFS_ROOT_TREE_OBJECTID && g_at == sub : g_at_tree == sub && g_at == ino, "C17.named: the subvolume or file named is looked up in its own tree");
	vc_assert(g_at_type == (k == 0 ? BTRFS_INODE_ITEM_KEY : k == 1 ? BTRFS_ROOT_ITEM_KEY : BTRFS_ROOT_BACKREF_KEY), "C17.named-type: the item of the kind wanted is looked up");
	vc_assert(!r == !!g_at_none, "C17.named-found: the item is returned if there is one");
	vc_assert((k == 0 ? fi.scale_size() : fr.scale_size()) == 1, "C17.named-scale: every inode and subvolume number can be asked for");
	vc_cover("named");
}
// ---- data extents: skipping parts of the tree that hold no data
extern "C" {
// ghost chunks: one data chunk with an extent of interest, and the one the last item lies in
uint64_t c_exists, c_begin, c_end, c_pos, p_begin, p_end, p_data, m_asks;
static uint64_t len_of(const BtrfsTreeItem *i) { return i->m_transid; }
static BtrfsTreeItem chunk(uint64_t min, uint64_t max)
{
	BtrfsTreeItem i; const unsigned which = vc_nd_range(0, 2, "which");
	uint64_t b, e, data;
	if (which == 0) { vc_assume(c_exists); b = c_begin; e = c_end; data = 1; }
	else if (which == 1) { b = p_begin; e = p_end; data = p_data; }
	else { b = vc_nd_range(0, 1ULL << 62, "begin"); e = vc_nd_range(0, 1ULL << 62, "end"); data = vc_nd_bool("data"); vc_assume(b < e && (!c_exists || e <= c_begin || b >= c_end) && (e <= p_begin || b >= p_end)); }
	vc_assume(b >= min && b <= max);
	i.m_type = BTRFS_CHUNK_ITEM_KEY; i.m_offset = b; i.m_transid = e - b; i.m_objectid = data ? BTRFS_BLOCK_GROUP_DATA | (vc_nd_bool("mixed") ? BTRFS_BLOCK_GROUP_METADATA : 0) : BTRFS_BLOCK_GROUP_METADATA;
	return i;
}
// contracts of the searches (proved above; the last chunk at or before a position is assumed)
__attribute__((used)) BtrfsTreeItem h_chunk_le(BtrfsTreeFetcher *, uint64_t p)
{
	++m_asks; uint64_t min = 0; bool some = false;
	if (c_exists && c_begin <= p) { min = c_begin; some = true; }
	if (p_begin <= p) { some = true; if (p_begin > min) min = p_begin; }
	if (!some && vc_nd_bool("no chunk")) return BtrfsTreeItem();
	return chunk(min, p);
}
__attribute__((used)) BtrfsTreeItem h_chunk_ge(BtrfsTreeFetcher *, uint64_t p)
{
	++m_asks; uint64_t max = 1ULL << 62; bool some = false;
	if (c_exists && c_begin >= p) { max = c_begin; some = true; }
	if (p_begin >= p) { some = true; if (p_begin < max) max = p_begin; }
	if (!some && vc_nd_bool("no chunk")) return BtrfsTreeItem();
	return chunk(p, max);
}
__attribute__((used)) uint64_t h_chunk_len(const BtrfsTreeItem *i) { return len_of(i); }
__attribute__((used)) uint64_t h_chunk_type(const BtrfsTreeItem *i) { return i->m_objectid; }
__attribute__((used)) bool h_chunk_none(const BtrfsTreeItem *i) { return !i->m_transid; }
BtrfsDataExtentTreeFetcher *g_f; BtrfsIoctlSearchKey *g_key; uint64_t h_pos, g_step;
static bool bg_ok()
{
	const BtrfsTreeItem &b = g_f->m_current_bg; const uint64_t s = b.m_offset, e = s + b.m_transid;
	if (!b.m_transid) return true;
	return s <= 1ULL << 62 && e <= 1ULL << 62 && s < e && (!c_exists || e <= c_begin || s >= c_end || (s == c_begin && e == c_end && b.m_objectid & BTRFS_BLOCK_GROUP_DATA)) && (e <= p_begin || s >= p_end || (s == p_begin && e == p_end));
}
bool inv_skip()
{
	const BtrfsTreeItem &b = g_f->m_current_bg;
	return bg_ok() && g_key->min_objectid > h_pos && g_key->min_objectid <= 1ULL << 62 && (!c_exists || g_key->min_objectid <= c_pos) &&
		// no chunk known here lies between the search position and the chunk looked at
		(!b.m_transid || b.m_offset <= h_pos + g_step || b.m_offset >= g_key->min_objectid) && (b.m_transid ? b.m_offset + b.m_transid > h_pos && (!c_exists || b.m_offset <= c_pos) : !c_exists);
}
void hav_skip() { BtrfsTreeItem &b = g_f->m_current_bg; b.m_offset = vc_nd<uint64_t>("bo"); b.m_transid = vc_nd<uint64_t>("bt"); b.m_objectid = vc_nd<uint64_t>("bi"); b.m_type = vc_nd<uint8_t>("by"); g_key->min_objectid = vc_nd<uint64_t>("ko"); }
}
VC_HARNESS(h_data_next)
{
	BtrfsDataExtentTreeFetcher f(fs()); g_f = &f; BtrfsIoctlSearchKey k; g_key = &k; BtrfsIoctlSearchHeader h; m_asks = 0;
	const uint64_t top = 1ULL << 61; g_step = f.scale_size();
	vc_assert(f.tree() == BTRFS_EXTENT_TREE_OBJECTID && f.type() == BTRFS_EXTENT_ITEM_KEY, "C17.data-tree: extents are read from the extent tree");
	vc_assert(f.m_chunk_tree.tree() == BTRFS_CHUNK_TREE_OBJECTID && f.m_chunk_tree.type() == BTRFS_CHUNK_ITEM_KEY && f.m_chunk_tree.objectid() == BTRFS_FIRST_CHUNK_TREE_OBJECTID, "C17.data-chunks: chunks are read from the chunk tree");
	p_begin = vc_nd_range(0, top, "p begin") & ~4095ULL; p_end = vc_nd_range(0, top, "p end") & ~4095ULL; p_data = vc_nd_bool("p data");
	h_pos = h.objectid = vc_nd_range(0, top, "item") & ~4095ULL; h.type = vc_nd_range(0, 255, "type"); h.offset = vc_nd<uint64_t>("offset");
	vc_assume(p_begin <= h_pos && h_pos < p_end);
	c_exists = vc_nd_bool("extent"); c_begin = vc_nd_range(0, top, "c begin") & ~4095ULL; c_end = vc_nd_range(0, top, "c end") & ~4095ULL; c_pos = vc_nd_range(0, top, "c pos") & ~4095ULL;
	if (c_exists) vc_assume(c_begin <= c_pos && c_pos < c_end && c_pos > h_pos && (c_end <= p_begin || c_begin >= p_end || (c_begin == p_begin && c_end == p_end && p_data)));
	BtrfsTreeItem &b = f.m_current_bg;
	if (vc_nd_bool("cached")) { b.m_type = BTRFS_CHUNK_ITEM_KEY; b.m_offset = vc_nd_range(0, top, "cache begin"); b.m_transid = vc_nd_range(1, top, "cache length"); b.m_objectid = BTRFS_BLOCK_GROUP_DATA; }
	vc_assume(bg_ok());
	bool t = false; try { static_cast<BtrfsTreeFetcher &>(f).next_sk(k, h); } catch (...) { t = true; }
	vc_assert(!t, "C17.data-total: the walk can go on from every item");
	vc_assert(k.min_type == BTRFS_EXTENT_ITEM_KEY && k.max_type == BTRFS_EXTENT_ITEM_KEY && k.max_objectid == ~0ULL && k.max_offset == ~0ULL && k.min_offset == 0, "C17.data-key: the rest of the extent tree is searched");
	vc_assert(k.min_objectid > h_pos, "C17.data-forward: the walk goes forward");
	vc_assert(!c_exists || k.min_objectid <= c_pos, "C17.data-all: no data extent is skipped");
	vc_cover("next");
	if (m_asks > 1) vc_cover("skipped");
}
