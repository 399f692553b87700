// Contracts of the position keeping of subvol scans: unfinished work is held, deferred work is retried.
#include "fdmodel.h"
#include "src/bees-roots.cc"
#include "src/bees-types.cc"
#include "lib/error.cc"
#include "lib/fd.cc"
using namespace crucible;
typedef ProgressTracker<BeesCrawlState>::ProgressHolder Hold;
typedef ProgressTracker<BeesCrawlState>::ProgressHolderState PHS;
#ifdef VC_NATIVE
#define VC_INIT(t) new (t) Task()
#else
#define VC_INIT(t)
#endif
extern "C" {
uint64_t g_root, g_ino, g_begin, g_len, g_none, g_popped, g_holds, g_runs, g_tasks, g_appended, g_again, g_item, g_flags, g_sets, g_gen, g_type, g_phys, g_black, g_locked, g_scans, g_asked, g_failed, g_deferred, g_peeked;
BeesCrawlState g_end, g_hold0, g_range;
alignas(16) uint64_t g_crawl[(sizeof(BeesCrawl) + 7) / 8], g_holder[3][(sizeof(PHS) + 7) / 8], g_mode[(sizeof(BeesScanModeLockstep) + 7) / 8], g_bfc[(sizeof(BeesFileCrawl) + 7) / 8];
static BeesCrawl *crawl() { return reinterpret_cast<BeesCrawl *>(g_crawl); }
static PHS *holder(uint64_t i) { return reinterpret_cast<PHS *>(g_holder[i & 3 ? (i & 3) - 1 : 0]); }
static BeesCrawlState &held(const PHS *h) { return const_cast<BeesCrawlState &>(h->m_value); }
static Hold hold(PHS *h) { return Hold(Hold(), h); }
static bool lt(const BeesCrawlState &a, const BeesCrawlState &b)
{
#define F(x) if (a.x != b.x) return a.x < b.x;
	F(m_min_transid) F(m_max_transid) F(m_objectid) F(m_offset) return a.m_root < b.m_root;
}
static BeesCrawlState g_passed() { BeesCrawlState p = g_range; p.m_objectid = g_ino + 1; p.m_offset = ~0ULL; return p; }
__attribute__((used)) Hold h_hold(BeesCrawl *c, const BeesCrawlState &s) { if (c != crawl()) g_failed = 1; ++g_holds; PHS *h = holder(g_holds > 2 ? 2 : g_holds); held(h) = s; if (lt(g_end, s)) g_end = s; return hold(h); }
__attribute__((used)) void h_set(BeesCrawl *, const BeesCrawlState &s)
{
	++g_sets; if (lt(g_end, s)) g_end = s;
	vc_assert((!g_popped || !lt(g_passed(), s)), "C06.pop-pos: the position moves only past the file taken");
}
__attribute__((used)) BeesCrawlState h_get_end(BeesCrawl *) { return g_end; }
// contract of pop_front (checked in c08_fetch.cc): a file found now or earlier; its position is held in the transaction range in which it was found,
// which is the current one or, if the scan before it has just ended, a new one; the end of the positions is past the file
__attribute__((used)) BeesFileRange h_pop(BeesCrawl *, Hold &h)
{
	if (g_none) return BeesFileRange();
	g_popped = 1;
	if (!g_peeked && vc_nd_bool("restart")) { g_range.m_min_transid = g_end.m_max_transid; g_range.m_max_transid = vc_nd_range(0, 1ULL << 61, "new max_transid"); vc_assume(g_range.m_max_transid > g_end.m_max_transid); }
	else { g_range.m_min_transid = g_end.m_min_transid; g_range.m_max_transid = g_end.m_max_transid; }
	g_range.m_root = g_root; g_range.m_objectid = g_ino; g_range.m_offset = 0; g_range.m_started = vc_nd_range(0, 1ULL << 40, "started");
	BeesCrawlState e = g_range; e.m_objectid = g_ino + 1; e.m_offset = 0; if (lt(g_end, e)) g_end = e;
	held(holder(1)) = g_range; h = hold(holder(1));
	return BeesFileRange(BeesFileId(g_root, g_ino), g_begin, g_begin + g_len);
}
__attribute__((used)) Fd h_ctx_root(BeesContext *) { Fd f; fd_model(&f, 7); return f; }
__attribute__((used)) void h_fetcher(void *, const Fd &) { }
__attribute__((used)) void h_fetcher_end(void *) { }
__attribute__((used)) BtrfsTreeItem h_inode(void *, uint64_t root, uint64_t ino)
{
	vc_assert(root == g_root && ino == g_ino, "C06.inode: the flags of the file taken are looked up");
	if (vc_nd_bool("lookup fails")) { g_failed = 1; throw std::runtime_error("stat"); }
	BtrfsTreeItem i; return i;
}
__attribute__((used)) bool h_item_none(void *) { return !g_item; }
__attribute__((used)) uint64_t h_flags(void *) { return g_flags; }
__attribute__((used)) void h_task(Task *t, void *, const std::function<void()> &f)
{
	VC_INIT(t); ++g_tasks;
	f();
}
__attribute__((used)) void h_run(const Task *) { ++g_runs; }
__attribute__((used)) Task h_current() { return Task(); }
__attribute__((used)) void h_append(const Task *, const Task &) { ++g_appended; }
__attribute__((used)) void h_task_end(Task *) { }
__attribute__((used)) bool h_scan_ref(BeesFileCrawl *b)
{
	vc_assert(b->m_hold.get() != nullptr, "C06.held: the scan of a file holds a position until it is done");
	const BeesCrawlState &h = held(b->m_hold.get());
	vc_assert(h.m_objectid <= g_ino, "C06.hold-pos: the position saved while a file is waiting or being scanned does not pass the file");
	vc_assert(h.m_min_transid <= g_range.m_min_transid && h.m_max_transid <= g_range.m_max_transid && h.m_root == g_root, "C06.hold-transid: the position held belongs to the current scan of the subvolume");
	vc_assert(b->m_state.m_root == g_root && b->m_state.m_objectid == g_ino && b->m_state.m_min_transid <= g_range.m_min_transid && b->m_state.m_max_transid == g_range.m_max_transid, "C06.file: the file taken is the one scanned, in the transaction range of the scan");
	vc_assert(b->m_offset <= off_t(g_begin), "C06.from-start: the scan begins no later than the first extent");
	vc_assert(b->m_crawl.get() == crawl(), "C06.crawl");
	return g_again;
}
// one extent item of the file
__attribute__((used)) BtrfsTreeItem h_lower(BtrfsExtentDataFetcher *f, uint64_t off)
{
	vc_assert(g_locked, "C06.inode-lock: a file is scanned by one worker at a time");
	g_asked = off;
	if (vc_nd_bool("lookup fails")) { g_failed = 1; throw std::runtime_error("lower_bound"); }
	BtrfsTreeItem i; if (!g_item) return i;
	g_begin = vc_nd_range(off, 0x7fffffffffff0000ULL, "extent offset");
	i.m_offset = g_begin; i.m_objectid = g_ino; i.m_transid = 1; return i;
}
uint64_t g_f_tree, g_f_obj, g_f_transid;
__attribute__((used)) void h_f_tree(void *, uint64_t v) { g_f_tree = v; }
__attribute__((used)) void h_f_obj(void *, uint64_t v) { g_f_obj = v; }
__attribute__((used)) void h_f_transid(void *, uint64_t v, uint64_t) { g_f_transid = v; }
__attribute__((used)) uint64_t h_f_getobj(void *) { return g_f_obj; }
__attribute__((used)) uint64_t h_block(void *) { return 4096; }
__attribute__((used)) uint64_t h_gen(void *) { return g_gen; }
__attribute__((used)) uint8_t h_type(void *) { return g_type; }
__attribute__((used)) uint64_t h_phys(void *) { return g_phys; }
__attribute__((used)) uint64_t h_len(void *) { return g_len; }
alignas(16) uint64_t g_excl[(sizeof(Exclusion) + 7) / 8]; alignas(8) char g_owner[8];
__attribute__((used)) std::shared_ptr<Exclusion> h_imutex(BeesContext *, uint64_t ino) { vc_assert(ino == g_ino, "C06.inode-lock-id"); return std::shared_ptr<Exclusion>(std::shared_ptr<Exclusion>(), reinterpret_cast<Exclusion *>(g_excl)); }
__attribute__((used)) ExclusionLock h_trylock(Exclusion *, const Task &) { ExclusionLock l; g_locked = vc_nd_bool("inode lock"); if (g_locked) l.m_owner = std::shared_ptr<Task>(std::shared_ptr<Task>(), reinterpret_cast<Task *>(g_owner)); return l; }
__attribute__((used)) bool h_lockbool(void *) { return g_locked; }
__attribute__((used)) bool h_black(BeesContext *, const BeesFileId &id) { if (id.root() != g_root || id.ino() != g_ino) g_failed = 1; return g_black; }
__attribute__((used)) bool h_forward(BeesContext *, const BeesFileRange &r)
{
	++g_scans;
	const BeesFileId id = r.fid();
	vc_assert(id.root() == g_root && id.ino() == g_ino && r.begin() == off_t(g_begin) && r.end() == off_t(g_begin + g_len), "C06.extent: exactly the extent found is scanned");
	if (vc_nd_bool("scan fails")) throw std::runtime_error("scan");
	g_deferred = g_again;
	return g_again;
}
}
static BeesCrawlState some() { BeesCrawlState s; s.m_root = g_root; s.m_objectid = vc_nd_range(0, ~0ULL - 2, "objectid"); s.m_offset = vc_nd<uint64_t>("offset"); s.m_min_transid = vc_nd_range(0, 1ULL << 60, "min_transid"); s.m_max_transid = vc_nd_range(0, 1ULL << 60, "max_transid"); s.m_started = vc_nd_range(0, 1ULL << 40, "started"); return s; }
static void setup()
{
	g_root = vc_nd_range(256, ~0ULL - 256, "root"); g_popped = g_holds = g_runs = g_tasks = g_appended = g_sets = g_scans = g_locked = g_failed = g_deferred = 0;
	g_begin = vc_nd_range(0, 0x7fffffff, "begin") * 4096; g_len = vc_nd_range(1, 0x7fffffff, "len") * 4096; g_ino = vc_nd_range(257, ~0ULL - 256, "ino");
	g_item = vc_nd_bool("item"); g_again = vc_nd_bool("again");
}
VC_HARNESS(h_crawl_inode)
{
	setup(); g_none = vc_nd_bool("nothing left"); g_flags = vc_nd<uint64_t>("inode flags"); g_end = some();
	// the file was peeked at (the position is already past it), or will be found from the position on
	vc_assume(g_end.m_min_transid <= g_end.m_max_transid); g_peeked = vc_nd_bool("peeked"); if (g_peeked) { g_end.m_objectid = g_ino + 1; g_end.m_offset = 0; } else vc_assume(g_end.m_objectid <= g_ino);
	Hold h; std::shared_ptr<BeesCrawl> c(std::shared_ptr<BeesCrawl>(), crawl());
	const bool rv = reinterpret_cast<BeesScanModeSubvol *>(g_mode)->BeesScanModeSubvol::crawl_one_inode(c);
	vc_assert(rv == !g_none, "C06.more: the caller learns whether there was a file");
	if (g_none) { vc_assert(!g_tasks && !g_sets, "C06.idle"); vc_cover("none"); return; }
	if (!g_failed && g_item && !(g_flags & BTRFS_INODE_NODATASUM)) { vc_assert(g_tasks == 1 && g_runs == 1, "C06.scanned: every file that can be deduplicated is scanned"); vc_assert(g_appended == g_again, "C06.continues: the scan of a file continues until it says it is done"); vc_cover("scanned"); }
	if (g_item && (g_flags & BTRFS_INODE_NODATASUM)) vc_assert(!g_tasks, "C06.nodatasum: files without checksums are not scanned");
}
VC_HARNESS(h_file_scan)
{
	setup();
	BeesFileCrawl &b = *reinterpret_cast<BeesFileCrawl *>(g_bfc);
	g_gen = vc_nd<uint64_t>("gen"); g_type = vc_nd_range(0, 255, "type"); g_phys = vc_nd<uint64_t>("physical"); g_black = vc_nd_bool("blacklisted");
	b.m_state = some(); b.m_state.m_objectid = g_ino; g_end = some();
	g_hold0 = some(); held(holder(3)) = g_hold0;
#ifdef VC_NATIVE
	new (&b.m_hold) Hold(hold(holder(3))); new (&b.m_crawl) std::shared_ptr<BeesCrawl>(std::shared_ptr<BeesCrawl>(), crawl());
#else
	b.m_hold = hold(holder(3)); b.m_crawl = std::shared_ptr<BeesCrawl>(std::shared_ptr<BeesCrawl>(), crawl());
#endif
	const off_t off0 = b.m_offset = vc_nd_range(0, 0x7fffffffffff0000ULL, "current offset");
	bool t = false, rv = false;
	try { rv = b.scan_one_ref(); } catch (...) { t = true; }
	if (t) { vc_cover("failed"); vc_assert(!g_scans || b.m_hold.get() == holder(3), "C06.fail-hold"); return; }
	if (!g_locked) { vc_assert(!rv && b.m_offset == off0 && b.m_hold.get() == holder(3) && !g_scans, "C06.deferred-file: a file locked by another worker is left for later as it is"); vc_cover("locked"); return; }
	vc_assert(uint64_t(off0) == g_asked && g_f_tree == g_root && g_f_obj == g_ino && g_f_transid <= b.m_state.m_min_transid, "C06.next: the next extent of the file is looked for, with every extent as new as the scan's transaction range");
	if (!g_item) { vc_assert(!rv && !g_scans, "C06.file-end: the scan of a file ends with its last extent"); vc_cover("end"); return; }
	const bool want = g_phys && (g_type == BTRFS_FILE_EXTENT_REG || g_type == BTRFS_FILE_EXTENT_PREALLOC) && g_gen >= b.m_state.m_min_transid && g_gen <= b.m_state.m_max_transid && !g_black;
	vc_assert(g_scans == want, "C06.wanted: exactly the data extents in the scan's transaction range are scanned");
	if (g_deferred) {
		vc_assert(b.m_offset <= off_t(g_begin) && b.m_offset >= off0, "C06.retry: an extent locked by another worker is scanned again later");
		vc_assert(b.m_hold.get() == holder(3), "C06.retry-hold: the position does not pass an extent left for later");
		vc_cover("deferred");
	} else {
		vc_assert(rv, "C06.go-on: the scan of the file goes on after an extent");
		vc_assert(b.m_offset > off_t(g_begin) && b.m_offset <= off_t(g_begin) + 4096, "C06.advance: the scan goes on with the block after the beginning of the extent");
	}
	const BeesCrawlState &h = held(b.m_hold.get());
	vc_assert(b.m_hold.get() == holder(3) || (h.m_root == g_root && h.m_objectid == g_ino && h.m_offset <= g_begin + g_len && h.m_min_transid == b.m_state.m_min_transid && h.m_max_transid == b.m_state.m_max_transid), "C06.hold-extent: the position held does not pass the extent just scanned");
	if (want) vc_cover("scanned"); else vc_cover("skipped");
}
