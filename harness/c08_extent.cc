// Contract of the extent scan: every extent of the tier's sizes in the scan's transaction range is visited before the position passes it.
#include "fdmodel.h"
#include "src/bees-roots.cc"
#include "lib/error.cc"
#include "lib/fd.cc"
using namespace crucible;
typedef ProgressTracker<BeesCrawlState>::ProgressHolder Hold;
typedef ProgressTracker<BeesCrawlState>::ProgressHolderState PHS;
typedef BeesScanModeExtent::SizeTier Tier;
struct Ext { uint64_t pos, len, gen, flags; };
#ifdef VC_NATIVE
#define VC_INIT(t) new (t) Task()
#else
#define VC_INIT(t)
#endif
extern "C" {
alignas(16) uint64_t g_tier[(sizeof(Tier) + 7) / 8], g_crawl[(sizeof(BeesCrawl) + 7) / 8], g_bsme[(sizeof(BeesScanModeExtent) + 7) / 8];
static Tier &tier() { return *reinterpret_cast<Tier *>(g_tier); }
Ext g_w, g_cur;		// an arbitrary extent that exists, and the one last found
uint64_t g_start, g_pos, g_tasks, g_runs, g_mapped, g_maplen, g_restarts, g_idle, g_scale, g_deferred, g_ask_min, g_ask_max, g_holds, g_found, g_has_w;
BeesCrawlState g_end, g_old;
static BeesCrawlState &held(const PHS *h) { return const_cast<BeesCrawlState &>(h->m_value); }
static bool lt(const BeesCrawlState &a, const BeesCrawlState &b)
{
#define F(x) if (a.x != b.x) return a.x < b.x;
	F(m_min_transid) F(m_max_transid) F(m_objectid) F(m_offset) return a.m_root < b.m_root;
}
static bool wanted(const Ext &e) { return !(e.flags & BTRFS_EXTENT_FLAG_TREE_BLOCK) && e.len >= tier().m_size_range.m_min_size && e.len <= tier().m_size_range.m_max_size && e.gen >= g_old.m_min_transid && e.gen <= g_old.m_max_transid; }
static bool w_waits() { return g_has_w && g_w.pos >= g_start && wanted(g_w); }
__attribute__((used)) BeesCrawlState h_get_end(BeesCrawl *) { return g_end; }
__attribute__((used)) Hold h_hold(BeesCrawl *, const BeesCrawlState &s)
{
	if (lt(g_end, s)) g_end = s;
	g_holds = 1; PHS *h = static_cast<PHS *>(vc_alloc(sizeof(PHS))); held(h) = s;
	return Hold(Hold(), h);
}
__attribute__((used)) void h_transid(void *, uint64_t min, uint64_t max) { g_ask_min = min; g_ask_max = max; }
__attribute__((used)) uint64_t h_scale(void *) { return g_scale; }
static bool rare(const char *n) { return vc_nd_small(0, 15, 15, n) == 1; }
static Ext some_extent() { Ext e; e.pos = vc_nd_small(0, 1ULL << 50, 90, "position") * g_scale; e.len = vc_nd_small(1, 1ULL << 40, vc_nd_bool("short") ? 9 : 70, "length") * g_scale; e.gen = vc_nd_small(0, ~0ULL, 4, "generation"); e.flags = vc_nd_small(0, ~0ULL, 1, "flags"); return e; }
static BtrfsTreeItem item(const Ext &e) { BtrfsTreeItem i; i.m_objectid = e.pos; i.m_offset = e.len; i.m_transid = 1; g_cur = e; g_found = 1; return i; }
__attribute__((used)) bool h_deferred(BeesCrawl *) { return g_deferred = rare("deferred"); }
// contract of lower_bound: the first extent at or after the position; extents do not overlap
__attribute__((used)) BtrfsTreeItem h_lower(void *, uint64_t pos)
{
	vc_assert(g_ask_min <= g_old.m_min_transid && g_ask_max >= g_old.m_max_transid, "C08.range: the search for extents leaves out none in the scan's transaction range");
	BtrfsTreeItem none;
	if (rare("lookup fails")) throw std::runtime_error("lower_bound");
	if (g_has_w && g_w.pos >= pos && vc_nd_bool("found w")) return item(g_w);
	Ext e = some_extent();
	if (!vc_symbolic()) e.pos = pos + e.pos % 10 * g_scale;
	vc_assume(e.pos >= pos);
	if (g_has_w && g_w.pos >= pos) vc_assume(e.pos + e.len <= g_w.pos);
	else if (vc_nd_bool("none")) { g_found = 0; return none; }
	vc_assume(!g_has_w || e.pos >= g_w.pos + g_w.len || e.pos + e.len <= g_w.pos);
	return item(e);
}
// contract of rlower_bound: the last extent that begins at or before the position
__attribute__((used)) BtrfsTreeItem h_rlower(void *, uint64_t pos)
{
	BtrfsTreeItem none;
	if (rare("backward lookup fails")) throw std::runtime_error("rlower_bound");
	if (g_has_w && g_w.pos <= pos && vc_nd_bool("found w")) return item(g_w);
	Ext e = some_extent();
	if (!vc_symbolic()) e.pos = pos - e.pos % 40 * g_scale;
	vc_assume(e.pos <= pos);
	if (g_has_w && g_w.pos <= pos) vc_assume(e.pos >= g_w.pos + g_w.len);
	else if (vc_nd_bool("none")) { g_found = 0; return none; }
	vc_assume(!g_has_w || e.pos >= g_w.pos + g_w.len || e.pos + e.len <= g_w.pos);
	return item(e);
}
__attribute__((used)) bool h_item_none(const BtrfsTreeItem *i) { return !i->m_transid; }
__attribute__((used)) uint64_t h_flags(const BtrfsTreeItem *i) { return g_cur.flags; }
__attribute__((used)) uint64_t h_gen(const BtrfsTreeItem *i) { return g_cur.gen; }
__attribute__((used)) bool h_restart(BeesCrawl *) { vc_assert(!w_waits(), "C08.restart: a scan begins again only after every extent has been visited"); ++g_restarts; return true; }
__attribute__((used)) void h_count(BeesScanModeExtent *, uint64_t) { }
__attribute__((used)) Task h_current() { return Task(); }
__attribute__((used)) void h_idle(const Task *) { ++g_idle; }
__attribute__((used)) void h_run(const Task *) { ++g_runs; }
__attribute__((used)) void h_task(Task *t, void *, const std::function<void()> &f) { VC_INIT(t); ++g_tasks; f(); }
__attribute__((used)) void h_task_end(Task *) { }
__attribute__((used)) bool h_throttle() { return vc_nd_bool("throttled"); }
__attribute__((used)) void h_map(Tier *t, uint64_t pos, const Hold &h, uint64_t len, const Task &)
{
	vc_assert(t == &tier() && pos == g_cur.pos && len == g_cur.len && wanted(g_cur), "C08.visit: exactly the extents of the tier's sizes in the scan's transaction range are visited");
	vc_assert(h.get() && held(h.get()).m_objectid <= pos && held(h.get()).m_min_transid == g_old.m_min_transid && held(h.get()).m_max_transid == g_old.m_max_transid && held(h.get()).m_root == g_old.m_root, "C08.hold: the position saved does not pass the extent until it has been visited");
	++g_mapped;
}
__attribute__((used)) std::shared_ptr<Tier> h_this(void *) { return std::shared_ptr<Tier>(std::shared_ptr<Tier>(), &tier()); }
__attribute__((used)) double h_age(void *) { return vc_nd_double("age"); }
bool inv_pos(uint64_t cur) { return cur >= g_start && (!w_waits() || cur <= g_w.pos); }
bool inv_end() { return (g_end.m_objectid <= g_start || !w_waits() || g_end.m_objectid <= g_w.pos) && g_end.m_min_transid == g_old.m_min_transid && g_end.m_max_transid == g_old.m_max_transid && g_end.m_root == g_old.m_root && g_end.m_objectid >= g_start && !g_tasks && !g_runs && !g_mapped && !g_restarts && !g_idle; }
void hav() { g_end.m_objectid = vc_nd<uint64_t>("end"); g_end.m_offset = vc_nd<uint64_t>("end offset"); }
}
VC_HARNESS(h_find)
{
	g_tasks = g_runs = g_mapped = g_restarts = g_idle = g_found = g_holds = 0; g_ask_min = ~0ULL; g_ask_max = 0;
	g_scale = 4096; Tier &t = tier();
	g_old.m_root = vc_nd<uint64_t>("root"); g_old.m_objectid = g_start = vc_nd_small(0, 1ULL << 50, 20, "position") * g_scale; g_old.m_offset = 0; g_old.m_min_transid = vc_nd_small(0, ~0ULL, 1, "min"); g_old.m_max_transid = vc_nd_small(0, ~0ULL, 9, "max"); g_old.m_started = vc_nd_range(0, 1ULL << 40, "started");
	g_end = g_old;
	t.m_size_range.m_min_size = vc_nd_small(0, 1ULL << 40, 250000, "min size"); t.m_size_range.m_max_size = vc_nd_small(0, ~0ULL, 1000000, "max size"); t.m_subvol = g_old.m_root;
	g_has_w = vc_nd_small(0, 9, 9, "has w") > 0; g_w = some_extent();
	new (&t.m_crawl) std::shared_ptr<BeesCrawl>(std::shared_ptr<BeesCrawl>(), reinterpret_cast<BeesCrawl *>(g_crawl));
	new (&t.m_bsme) std::shared_ptr<BeesScanModeExtent>(std::shared_ptr<BeesScanModeExtent>(), reinterpret_cast<BeesScanModeExtent *>(g_bsme));
	bool rv = false, th = false;
	try { rv = t.find_next_extent(); } catch (...) { th = true; }
	if (!th) {
		if (g_mapped) { vc_assert(rv && g_tasks == 1 && g_runs == 1, "C08.task: the visit of an extent is started"); vc_cover("visited"); }
		else if (g_restarts) { vc_assert(rv && g_idle, "C08.goes-on: the scan goes on after it began again"); vc_cover("restarted"); }
		else vc_assert(!rv && g_deferred, "C08.stops: the scan stops only if it is up to date");
	}
	if (!th && !g_restarts && w_waits() && g_end.m_objectid > g_w.pos) vc_assert(g_mapped && g_cur.pos == g_w.pos, "C08.passed: an extent is visited before the scan's position passes it");
}
