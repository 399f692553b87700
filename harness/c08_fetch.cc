// Contracts of the walk of one subvol scan: which file is next, what the position passes, when the scan starts again.
#include "fdmodel.h"
#include "src/bees-roots.cc"
#include "src/bees-types.cc"
#include "lib/error.cc"
#include "lib/fd.cc"
using namespace crucible;
typedef ProgressTracker<BeesCrawlState>::ProgressHolder Hold;
typedef ProgressTracker<BeesCrawlState>::ProgressHolderState PHS;
extern "C" {
uint64_t g_found, g_ino, g_off, g_len, g_asked, g_ask_obj, g_ask_min, g_ask_max, g_tmax, g_ro, g_failed, g_sets, g_restarts, g_bad06, g_bad08, g_holds, g_fetches, g_now, g_tree, g_type, g_scale, g_progress, g_got, g_have;
BeesCrawlState g_end, g_old;
alignas(16) uint64_t g_crawl[(sizeof(BeesCrawl) + 7) / 8], g_holder[(sizeof(PHS) + 7) / 8], g_r[(sizeof(BeesRoots) + 7) / 8], g_ctx[(sizeof(BeesContext) + 7) / 8];
static BeesCrawl &crawl() { return *reinterpret_cast<BeesCrawl *>(g_crawl); }
static PHS *holder() { return reinterpret_cast<PHS *>(g_holder); }
static BeesCrawlState &held() { return const_cast<BeesCrawlState &>(holder()->m_value); }
static bool same_range(const BeesCrawlState &a, const BeesCrawlState &b) { return a.m_root == b.m_root && a.m_min_transid == b.m_min_transid && a.m_max_transid == b.m_max_transid; }
static bool lt(const BeesCrawlState &a, const BeesCrawlState &b)
{
#define F(x) if (a.x != b.x) return a.x < b.x;
	F(m_min_transid) F(m_max_transid) F(m_objectid) F(m_offset) return a.m_root < b.m_root;
}
__attribute__((used)) Hold h_hold(BeesCrawl *, const BeesCrawlState &s) { ++g_holds; held() = s; if (lt(g_end, s)) g_end = s; return Hold(Hold(), holder()); }
__attribute__((used)) void h_set(BeesCrawl *c, const BeesCrawlState &s)
{
	++g_sets; if (lt(g_end, s)) g_end = s;
	// a file that was found and is not held is lost if the position passes it
	if (g_found && g_asked && (s.m_objectid > g_ino || !same_range(s, g_old)) && (c->m_next_extent_hold.get() != holder() || held().m_objectid > g_ino || !same_range(held(), g_old))) g_bad06 = 1;
}
__attribute__((used)) BeesCrawlState h_get_end(BeesCrawl *) { return g_end; }
__attribute__((used)) std::shared_ptr<BeesRoots> h_roots(BeesContext *) { return std::shared_ptr<BeesRoots>(std::shared_ptr<BeesRoots>(), reinterpret_cast<BeesRoots *>(g_r)); }
__attribute__((used)) uint64_t h_tmax(BeesRoots *) { return g_tmax; }
__attribute__((used)) bool h_ro(BeesContext *, uint64_t root) { if (root != g_end.m_root) g_bad08 = 1; return g_ro; }
__attribute__((used)) void h_f_transid(void *, uint64_t min, uint64_t max) { g_ask_min = min; g_ask_max = max; }
__attribute__((used)) void h_f_tree(void *, uint64_t t) { g_tree = t; }
__attribute__((used)) uint64_t h_f_gettree(void *) { return g_tree; }
__attribute__((used)) void h_f_type(void *, uint8_t t) { g_type = t; }
__attribute__((used)) void h_f_setscale(void *, uint64_t t) { g_scale = t; }
__attribute__((used)) Fd h_ctx_root(BeesContext *) { Fd f; fd_model(&f, 7); return f; }
__attribute__((used)) void h_fetcher(void *, Fd) { }
__attribute__((used)) uint64_t h_f_scale(void *) { return 1; }
__attribute__((used)) BtrfsTreeItem h_lower(void *, uint64_t off)
{
	++g_asked; g_ask_obj = off;
	if (g_failed) throw std::runtime_error("lower_bound");
	BtrfsTreeItem i; if (!g_found) return i;
	i.m_objectid = g_ino = vc_nd_range(off, ~0ULL - 1, "objectid found"); i.m_offset = g_off; i.m_transid = 1; return i;
}
__attribute__((used)) bool h_item_none(const BtrfsTreeItem *i) { return !i->m_transid; }
__attribute__((used)) uint64_t h_len(void *) { return g_len; }
int64_t vcx_time(int64_t *) { return g_now; }
// contract of fetch_extents: something found is held, progress is reported while the walk goes on
__attribute__((used)) bool h_fetch_one(BeesCrawl *c)
{
	g_fetches = 1;
	vc_assert(!c->m_next_extent_data.m_transid, "C08.keep: a file found is not dropped for the next one");
	g_progress = vc_nd_bool("progress");
	if (g_progress && vc_nd_bool("found")) { g_got = 1; c->m_next_extent_data.m_transid = 1; c->m_next_extent_data.m_objectid = g_ino; c->m_next_extent_data.m_offset = g_off; c->m_next_extent_hold = Hold(Hold(), holder()); }
	return g_progress;
}
bool inv_none()
{
	const BeesCrawl &c = crawl(); const uint64_t t = c.m_next_extent_data.m_transid;
	return t == (g_have || g_got) && g_have <= 1 && g_got <= 1 && g_progress <= 1 && (!g_have || (!g_fetches && !g_got)) && (!g_got || g_fetches) && (g_have || g_got || !g_fetches || g_progress) && c.m_next_extent_hold.get() == (t ? holder() : nullptr) && (!t || (c.m_next_extent_data.m_objectid == g_ino && c.m_next_extent_data.m_offset == g_off));
}
void hav()
{
	BeesCrawl &c = crawl();
	c.m_next_extent_data.m_transid = vc_nd_range(0, 1, "hav"); c.m_next_extent_data.m_objectid = vc_nd<uint64_t>("hav"); c.m_next_extent_data.m_offset = vc_nd<uint64_t>("hav");
	c.m_next_extent_hold = vc_nd_bool("hav") ? Hold(Hold(), holder()) : Hold();
}
}
static BeesCrawlState some() { BeesCrawlState s; s.m_root = vc_nd<uint64_t>("root"); s.m_objectid = vc_nd_range(0, ~0ULL - 1, "objectid"); s.m_offset = vc_nd<uint64_t>("offset"); s.m_min_transid = vc_nd_range(0, 1ULL << 60, "min_transid"); s.m_max_transid = vc_nd_range(0, 1ULL << 60, "max_transid"); s.m_started = vc_nd_range(0, 1ULL << 40, "started"); return s; }
static void setup()
{
	g_old = g_end = some(); g_tmax = vc_nd_range(1, 1ULL << 60, "transid_max"); g_now = vc_nd_range(0, 1ULL << 40, "now");
	g_asked = g_sets = g_bad06 = g_bad08 = g_holds = g_fetches = g_got = g_progress = g_have = 0; vc_assume(g_old.m_min_transid <= g_old.m_max_transid); g_found = vc_nd_bool("found"); g_failed = vc_nd_bool("lookup fails"); g_ro = vc_nd_bool("read-only");
	g_off = vc_nd_range(0, 0x7fffffff, "extent offset") * 4096; g_len = vc_nd_range(1, 0x7fffffff, "length") * 4096; g_ino = vc_nd_range(256, ~0ULL - 1, "ino");
	g_tree = vc_nd_range(256, ~0ULL - 256, "tree");
}
static void prepare(bool have)
{
	BeesCrawl &c = crawl(); g_have = have;
	c.m_deferred = vc_nd_bool("deferred"); c.m_finished = vc_nd_bool("finished");
	c.m_next_extent_data.m_transid = have; c.m_next_extent_data.m_objectid = have ? g_ino : 0; c.m_next_extent_data.m_offset = have ? g_off : 0;
#ifdef VC_NATIVE
	new (&c.m_next_extent_hold) Hold(have ? Hold(Hold(), holder()) : Hold());
	new (&c.m_ctx) std::shared_ptr<BeesContext>(std::shared_ptr<BeesContext>(), reinterpret_cast<BeesContext *>(g_ctx));
#else
	c.m_next_extent_hold = have ? Hold(Hold(), holder()) : Hold();
	c.m_ctx = std::shared_ptr<BeesContext>(std::shared_ptr<BeesContext>(), reinterpret_cast<BeesContext *>(g_ctx));
#endif
}
VC_HARNESS(h_found_held)
{
	setup(); prepare(false);
	BeesCrawl &c = crawl();
	c.fetch_extents();
	vc_assert(!g_bad06, "C06.found-hold: the position saved does not pass a file that was found and has not been taken");
	if (c.m_next_extent_data.m_transid) {
		vc_assert(c.m_next_extent_hold.get() == holder() && held().m_objectid == c.m_next_extent_data.m_objectid && held().m_root == g_old.m_root, "C06.found-keep: the position of a file that was found is held until the file is taken");
		vc_assert(held().m_min_transid == g_old.m_min_transid && held().m_max_transid == g_old.m_max_transid, "C06.found-range: the position held has the transaction range in which the file was found");
		vc_cover("found");
	} else vc_cover("not found");
}
VC_HARNESS(h_take)
{
	setup(); const bool have = vc_nd_bool("peeked"), peek = vc_nd_bool("peek"); prepare(have);
	BeesCrawl &c = crawl(); Hold h;
	const BeesFileRange r = peek ? c.peek_front() : c.pop_front(h);
	if (have) vc_assert(!g_fetches, "C06.take-one: the file found before is taken first");
	const bool got = have || g_got;
	if (peek) {
		vc_assert(c.m_next_extent_hold.get() == (got ? holder() : nullptr), "C06.peek-hold: looking at the next file keeps its position held");
		vc_assert(c.m_next_extent_data.m_transid == got, "C06.peek-keep: looking at the next file does not take it");
		vc_cover("peek");
	} else {
		vc_assert(h.get() == (got ? holder() : nullptr), "C06.take-hold: the position held goes to the taker of the file");
		vc_assert(!c.m_next_extent_data.m_transid && !c.m_next_extent_hold.get(), "C06.take-once: a file is taken once");
		vc_cover("pop");
	}
	if (got) { const BeesFileId f = r.fid(); vc_assert(f.ino() == g_ino && f.root() == g_end.m_root, "C06.take-file: the file taken is the file found"); }
}
VC_HARNESS(h_fetch)
{
	setup(); prepare(false);
	BeesCrawl &c = crawl(); const bool deferred = c.m_deferred, finished = c.m_finished;
	const bool rv = c.fetch_extents();
	const bool again = finished || g_old.m_max_transid <= g_old.m_min_transid;
	vc_assert(!g_bad08, "C08.ro: the subvolume scanned is the one asked about");
	vc_assert(g_asked == (!deferred && !again && !g_ro), "C08.search: the next file is looked for in every subvolume that has an unfinished scan and is not left alone");
	if (g_asked) vc_assert(g_ask_obj <= g_old.m_objectid && g_ask_min <= g_old.m_min_transid && g_ask_max >= g_old.m_max_transid, "C08.from: the search for the next file leaves none out after the position, in the scan's transaction range");
	vc_assert(bool(c.m_next_extent_data.m_transid) == (g_asked && g_found && !g_failed), "C08.found: the file found is kept to be scanned");
	const bool at_end = !deferred && (again || (g_asked && !g_found && !g_failed));
	if (c.m_next_extent_data.m_transid) {
		vc_assert(rv, "C08.progress: a file found is progress");
		vc_assert(same_range(g_end, g_old) && g_end.m_objectid <= g_ino + 1, "C08.pass: the position moves past the file found and no further");
		vc_assert(g_end.m_objectid > g_ino, "C08.advance: the scan goes on after the file found");
		vc_cover("found");
	} else if (at_end && g_tmax > g_old.m_max_transid) {
		vc_assert(rv && !c.m_finished && !c.m_deferred, "C08.again: at the end of a scan the next one begins if there are new transactions");
		vc_assert(g_end.m_min_transid <= g_old.m_max_transid && g_end.m_root == g_old.m_root && g_end.m_objectid == 0, "C08.next-min: the next scan begins with the first file and the last transaction of the scan before it");
		vc_assert(g_end.m_max_transid >= g_tmax, "C08.next-max: the next scan reaches the newest transaction");
		vc_cover("restart");
	} else {
		if (at_end) { vc_assert(!rv && c.m_finished && c.m_deferred, "C08.idle: a scan that is up to date waits for new transactions"); vc_cover("up to date"); }
		if (!g_ro || deferred || again || g_old.m_objectid) vc_assert(!g_sets || (same_range(g_end, g_old) && g_end.m_objectid == g_old.m_objectid), "C08.keep-pos: the position stays where it is if nothing is found");
		else { vc_assert(g_end.m_root == g_old.m_root && g_end.m_objectid == 0 && g_end.m_min_transid == g_old.m_min_transid && g_end.m_max_transid >= g_old.m_max_transid, "C08.ro-pos: a scan of a read-only subvolume that did not begin loses no transactions"); vc_cover("read-only"); }
		if (!at_end && !deferred) vc_assert(!rv && c.m_deferred, "C08.leave: a subvolume that cannot be searched is left for the next transaction");
	}
}
VC_HARNESS(h_harder)
{
	setup(); prepare(vc_nd_bool("have"));
	crawl().fetch_extents_harder();
	vc_assert(crawl().m_next_extent_data.m_transid || (g_fetches && !g_progress), "C08.until: the search goes on until a file is found or there is nothing to do");
}
VC_HARNESS(h_crawl_new)
{
	setup(); g_tree = g_type = g_scale = 0; BeesCrawlState s = some();
	std::shared_ptr<BeesContext> x(std::shared_ptr<BeesContext>(), reinterpret_cast<BeesContext *>(g_ctx));
	const bool subvol = s.m_root == BTRFS_FS_TREE_OBJECTID || s.m_root >= BTRFS_FIRST_FREE_OBJECTID;
	new (g_crawl) BeesCrawl(x, s);
	if (subvol) vc_assert(g_tree == s.m_root && g_type == BTRFS_EXTENT_DATA_KEY && g_scale == 1, "C08.tree: the scan of a subvolume reads the file extents of the subvolume's own tree");
	vc_assert(!crawl().m_deferred && !crawl().m_finished && !crawl().m_next_extent_hold.get(), "C08.fresh: a new scan is ready to begin");
}
