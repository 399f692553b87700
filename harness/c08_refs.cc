// Contract of the visit of one extent: every file that refers to it is scanned, once, where it refers to it.
#include "fdmodel.h"
#include "src/bees-roots.cc"
#include "src/bees-types.cc"
#include "lib/error.cc"
#include "lib/fd.cc"
using namespace crucible;
typedef ProgressTracker<BeesCrawlState>::ProgressHolder Hold;
typedef ProgressTracker<BeesCrawlState>::ProgressHolderState PHS;
typedef BeesScanModeExtent::SizeTier Tier;
typedef BeesScanModeExtent::ExtentRef Ref;
typedef BtrfsIoctlLogicalInoArgs Args;
#ifdef VC_NATIVE
#define VC_INIT(t) new (t) Task()
#else
#define VC_INIT(t)
#endif
extern "C" {
alignas(16) uint64_t g_tier[(sizeof(Tier) + 7) / 8], g_ctx[(sizeof(BeesContext) + 7) / 8], g_holder[(sizeof(PHS) + 7) / 8], g_args[(sizeof(Args) + 7) / 8], g_owner[2], g_excl[(sizeof(Exclusion) + 7) / 8];
struct Node { std::__detail::_List_node_base base; alignas(Ref) char data[sizeof(Ref)]; } g_node;
static Tier &tier() { return *reinterpret_cast<Tier *>(g_tier); }
static Args &args() { return *reinterpret_cast<Args *>(g_args); }
static PHS *holder() { return reinterpret_cast<PHS *>(g_holder); }
static Ref &front() { return *reinterpret_cast<Ref *>(g_node.data); }
BtrfsInodeOffsetRoot *g_refs, g_v;	// the references, and an arbitrary one of them
uint64_t g_n, g_w, g_excused, g_listed, g_tree, g_obj, g_off, g_len, g_have, g_nocow, g_count, g_in_task, g_tasks, g_runs, g_scans, g_again, g_thrown, g_popped, g_put_back, g_idle, g_selfrun, g_throttle, g_addr, g_all, g_stat_v, g_locked, g_asked;
__attribute__((used)) Fd h_ctx_root(BeesContext *) { Fd f; fd_model(&f, 7); return f; }
__attribute__((used)) std::shared_ptr<Args> h_logical_ino(BeesContext *, uint64_t addr, bool all) { g_addr = addr; g_all = all; return std::shared_ptr<Args>(std::shared_ptr<Args>(), &args()); }
__attribute__((used)) std::shared_ptr<MultiLocker::LockHandle> h_getlock(const std::string &) { return std::shared_ptr<MultiLocker::LockHandle>(); }
// contract of LOGICAL_INO: all references of the extent, or failure
__attribute__((used)) bool h_ioctl(Args *a, int) { ++g_asked; return vc_nd_bool("ok"); }
__attribute__((used)) BtrfsInodeOffsetRoot *h_iors(const void *) { return g_refs; }
__attribute__((used)) BtrfsInodeOffsetRoot *h_iors_end(const void *) { return g_refs + g_n; }
__attribute__((used)) uint64_t h_iors_n(const void *) { return g_n; }
__attribute__((used)) void h_throttled(double, const char *) { }
__attribute__((used)) void h_fetcher(void *, const Fd &) { }
__attribute__((used)) void h_fetcher_end(void *) { }
static bool rare(const char *n) { return vc_nd_small(0, 15, 15, n) == 1; }
static bool is_v() { return g_tree == g_v.m_root && g_obj == g_v.m_inum && g_off == g_v.m_offset; }
__attribute__((used)) BtrfsTreeItem h_inode(void *, uint64_t root, uint64_t ino)
{
	BtrfsTreeItem i;
	g_stat_v = root == g_v.m_root && ino == g_v.m_inum;
	if (rare("inode lookup fails")) { if (g_stat_v) g_excused = 1; throw std::runtime_error("stat"); }
	i.m_transid = vc_nd_bool("inode found");
	return i;
}
__attribute__((used)) bool h_item_none(const BtrfsTreeItem *i) { return !i->m_transid; }
__attribute__((used)) uint64_t h_flags(const BtrfsTreeItem *) { uint64_t f = vc_nd_small(0, ~0ULL, 1, "inode flags"); if (rare("nodatasum")) f |= BTRFS_INODE_NODATASUM; if (f & BTRFS_INODE_NODATASUM) g_nocow = 1; return f; }
__attribute__((used)) std::string h_ntoa(uint64_t) { return std::string(); }
__attribute__((used)) void h_f_tree(void *, uint64_t t) { g_tree = t; }
__attribute__((used)) void h_f_obj(void *, uint64_t t) { g_obj = t; }
__attribute__((used)) BtrfsTreeItem h_at(void *, uint64_t off)
{
	g_off = off; g_have = 0;
	if (rare("item lookup fails")) { if (is_v()) g_excused = 1; throw std::runtime_error("at"); }
	BtrfsTreeItem i; i.m_transid = vc_nd_small(0, 9, 9, "item found");
	if (!i.m_transid) { if (is_v()) g_excused = 1; } else { g_have = 1; g_len = vc_nd<uint64_t>("length"); }
	return i;
}
__attribute__((used)) uint64_t h_len(const BtrfsTreeItem *) { if (rare("bad item")) { if (is_v()) g_excused = 1; throw std::runtime_error("length"); } return g_len; }
__attribute__((used)) void h_push(void *, const Ref &r)
{
	vc_assert(!g_tasks && g_have && r.m_root == g_tree && r.m_inum == g_obj && r.m_offset == g_off && r.m_length == g_len, "C08.ref: a file is scanned exactly where it refers to the extent");
	vc_assert(r.m_hold.get() == holder(), "C08.ref-hold: the position saved does not pass the extent until every reference has been scanned");
	g_have = 0; g_count = 1;
	if (is_v()) g_listed = 1;
}
__attribute__((used)) void h_sort(void *) { }
__attribute__((used)) void h_list_end(void *) { }
__attribute__((used)) bool h_empty(const void *) { return !g_count; }
__attribute__((used)) uint64_t h_size(const void *) { return g_count; }
__attribute__((used)) std::__detail::_List_node_base *h_begin(void *) { return &g_node.base; }
__attribute__((used)) void h_pop(void *) { if (g_popped || !g_count) g_thrown = 7; ++g_popped; --g_count; }
__attribute__((used)) void h_put_back(void *, const Ref &r)
{
	vc_assert(g_scans == 1 && g_again && r.m_root == front().m_root && r.m_inum == front().m_inum && r.m_offset == front().m_offset && r.m_length == front().m_length && r.m_hold.get() == holder(), "C08.put-back: a reference that could not be scanned now is kept as it was");
	++g_put_back; ++g_count;
}
__attribute__((used)) bool h_scan_ref(Tier *t, const Ref &r)
{
	++g_scans;
	vc_assert(t == &tier() && r.m_root == front().m_root && r.m_inum == front().m_inum && r.m_offset == front().m_offset && r.m_length == front().m_length && r.m_hold.get() == holder(), "C08.scan-ref: the reference taken is the one scanned");
	if (rare("scan fails")) { g_thrown = 1; throw std::runtime_error("scan"); }
	return g_again;
}
__attribute__((used)) std::shared_ptr<Tier> h_this(void *) { return std::shared_ptr<Tier>(std::shared_ptr<Tier>(), &tier()); }
__attribute__((used)) bool h_throttle() { return g_throttle; }
__attribute__((used)) Task h_current() { return Task(); }
__attribute__((used)) void h_idle(const Task *) { ++g_idle; }
__attribute__((used)) void h_run(const Task *) { if (g_in_task) ++g_selfrun; else ++g_runs; }
__attribute__((used)) void h_task(Task *t, void *, const std::function<void()> &f)
{
	VC_INIT(t); ++g_tasks;
	// one run of the task, with any number of references left
	const uint64_t had = g_count = vc_nd_small(0, 1ULL << 40, 2, "left");
	g_again = vc_nd_bool("again"); g_throttle = vc_nd_bool("throttle");
	front().m_root = vc_nd<uint64_t>("root"); front().m_inum = vc_nd<uint64_t>("inum"); front().m_offset = vc_nd<uint64_t>("offset"); front().m_length = vc_nd<uint64_t>("length");
	new (&front().m_hold) Hold(Hold(), holder());
	g_in_task = 1;
	f();
	g_in_task = 0;
	vc_assert(g_thrown != 7 && g_popped == g_scans && g_scans == (had > 0), "C08.each: a reference leaves the list only when it is scanned");
	vc_assert(!g_scans || g_thrown || g_put_back == g_again, "C08.retry: a reference that has to be scanned again is not forgotten");
	vc_assert(g_count ? g_selfrun == 1 && !g_idle : !g_selfrun && g_idle == !g_throttle, "C08.until-done: the visit goes on until no reference is left, and then lets the scan go on");
	if (g_count) vc_cover("more");
}
__attribute__((used)) void h_task_end(Task *) { }
static_assert(sizeof(BtrfsInodeOffsetRoot) == 24, "");
bool inv_ref(const BtrfsInodeOffsetRoot *p)
{
	const uint64_t o = vc_pointer_offset(p); const uint32_t third = uint32_t(o >> 3) * 0xAAAAAAABu;	// at most 2^32/3 if divisible by 3
	return vc_same_object(p, g_refs) && o <= g_n * 24 && !(o & 7) && third <= 0x55555555u && (o <= g_w * 24 || g_excused || g_listed);
}
bool inv_refs() { return !g_tasks && !g_runs && !g_nocow && (!g_listed || g_count) && g_count <= 1; }

bool g_black;
uint64_t g_deferred;
__attribute__((used)) std::shared_ptr<Exclusion> h_imutex(BeesContext *, uint64_t ino) { vc_assert(ino == front().m_inum, "C08.inode-lock: the scan of a reference holds its file's lock"); return std::shared_ptr<Exclusion>(std::shared_ptr<Exclusion>(), reinterpret_cast<Exclusion *>(g_excl)); }
__attribute__((used)) ExclusionLock h_trylock(Exclusion *, const Task &) { ExclusionLock l; g_locked = vc_nd_bool("inode lock"); if (g_locked) l.m_owner = std::shared_ptr<Task>(std::shared_ptr<Task>(), reinterpret_cast<Task *>(g_owner)); return l; }
__attribute__((used)) bool h_lockbool(void *) { return g_locked; }
__attribute__((used)) bool h_forward(BeesContext *, const BeesFileRange &r)
{
	++g_scans;
	const BeesFileId id = r.fid();
	vc_assert(g_locked, "C08.locked: a reference is scanned only under its file's lock");
	vc_assert(id.root() == front().m_root && id.ino() == front().m_inum && r.begin() == off_t(front().m_offset) && r.end() == off_t(front().m_offset + front().m_length), "C08.exact: exactly the part of the file that refers to the extent is scanned");
	if (rare("scan fails")) { g_thrown = 1; throw std::runtime_error("scan"); }
	return g_again;
}
}
static void init()
{
	g_excused = g_listed = g_have = g_nocow = g_count = g_in_task = g_tasks = g_runs = g_scans = g_again = g_thrown = g_popped = g_put_back = g_idle = g_selfrun = g_asked = g_locked = g_all = g_addr = 0;
	new (&tier().m_ctx) std::shared_ptr<BeesContext>(std::shared_ptr<BeesContext>(), reinterpret_cast<BeesContext *>(g_ctx));
}
VC_HARNESS(h_map_refs)
{
	init();
	g_n = vc_nd_small(0, 1ULL << 16, 3, "references");
	g_refs = static_cast<BtrfsInodeOffsetRoot *>(vc_alloc(g_n * sizeof(g_v)));
	if (!vc_symbolic()) for (uint64_t i = 0; i < g_n; ++i) { g_refs[i].m_inum = vc_nd_small(0, ~0ULL, 2, "inum"); g_refs[i].m_offset = vc_nd_small(0, ~0ULL, 2, "offset"); g_refs[i].m_root = vc_nd_small(0, ~0ULL, 2, "root"); }
	g_w = vc_nd_small(0, 1ULL << 16, 3, "which"); vc_assume(g_w < g_n || !g_n);
	if (g_n) g_v = g_refs[g_w];
	const uint64_t addr = vc_nd<uint64_t>("address"), len = vc_nd<uint64_t>("extent length");
	Hold hold(Hold(), holder());
	bool th = false;
	try { tier().create_extent_map(addr, hold, len, Task()); } catch (...) { th = true; }
	if (th) return;
	vc_assert(g_asked == 1 && g_addr == addr && g_all, "C08.refs: all references of the extent found are looked up");
	vc_assert(g_tasks ? g_tasks == 1 && g_runs == 1 : !g_runs, "C08.visit-runs: the scan of the references is started");
	if (g_n && g_n < BEES_MAX_EXTENT_REF_COUNT && !g_nocow) {
		vc_assert(g_excused || g_listed, "C08.all-refs: no file that refers to the extent is left out");
		vc_assert(!g_listed || g_tasks, "C08.all-scanned: the references found are scanned");
		if (g_tasks) vc_cover("scanned");
	} else vc_assert(!g_tasks, "C08.skip: an extent without checksums, or with too many references, is not scanned");
}
VC_HARNESS(h_scan_one_ref)
{
	init();
	Ref &r = front();
	r.m_root = vc_nd<uint64_t>("root"); r.m_inum = vc_nd<uint64_t>("inum"); r.m_offset = vc_nd_range(0, 1ULL << 62, "offset"); r.m_length = vc_nd_range(1, 1ULL << 61, "length");
	g_again = vc_nd_bool("again");
	bool th = false, rv = false;
	try { rv = tier().scan_one_ref(r); } catch (...) { th = true; }
	vc_assert(th || (g_locked ? g_scans == 1 && rv == g_again : !g_scans && rv), "C08.scanned-or-again: a reference is scanned, or kept to be scanned again");
	if (!th) vc_cover("done");
}
