// Contracts of saving the scan positions: what is saved is each scan's checkpoint, and no change is taken for saved that is not.
#include "open.h"
#include "src/bees-roots.cc"
#include "lib/error.cc"
using namespace crucible;
typedef ProgressTracker<BeesCrawlState>::ProgressHolder Hold;
typedef ProgressTracker<BeesCrawlState>::ProgressHolderState PHS;
extern "C" {
alignas(16) uint64_t g_roots[(sizeof(BeesRoots) + 7) / 8], g_crawl[(sizeof(BeesCrawl) + 7) / 8], g_crawl2[(sizeof(BeesCrawl) + 7) / 8], g_holder[(sizeof(PHS) + 7) / 8], g_ctx[2];
static BeesRoots &roots() { return *reinterpret_cast<BeesRoots *>(g_roots); }
static BeesCrawl *crawl(int i) { return reinterpret_cast<BeesCrawl *>(i ? g_crawl2 : g_crawl); }
uint64_t g_locked, g_snap, g_snapped, g_written, g_clean0, g_dirty0, g_empty, g_at_hold, g_held, g_present, g_size, g_changed, g_undeferred, g_writing, g_root;
// other threads change positions whenever the lock is free
static void others() { roots().m_crawl_dirty += vc_nd_range(0, 1ULL << 40, "changes by others"); }
int vcx_pthread_mutex_lock(void *m) { if (m == &roots().m_mutex) { vc_assert(!g_locked, "C06.relock"); others(); g_locked = 1; } return 0; }
int vcx_pthread_mutex_unlock(void *m) { if (m == &roots().m_mutex) g_locked = 0; return 0; }
#ifndef VC_NATIVE
struct Str { char *p; size_t n; char loc[16]; };
char g_text[8];
__attribute__((used)) void h_os_str(void *ret, void *) { static_cast<Str *>(ret)->p = g_text; static_cast<Str *>(ret)->n = g_empty ? 0 : 9; }
__attribute__((used)) void h_str_copy(void *to, void *from) { *static_cast<Str *>(to) = *static_cast<Str *>(from); }
__attribute__((used)) void h_str_end(void *) { }
__attribute__((used)) bool h_str_empty(void *s) { return !static_cast<Str *>(s)->n; }
#endif
__attribute__((used)) std::ostream &h_to_stream(BeesRoots *, std::ostream &os)
{
	vc_assert(g_locked, "C06.save-lock: the positions saved belong together");
	g_snap = roots().m_crawl_dirty; g_snapped = 1;
#ifdef VC_NATIVE
	if (!g_empty) os << "positions";
#endif
	return os;
}
__attribute__((used)) void h_write(BeesStringFile *f, std::string s)
{
	vc_assert(f == &roots().m_crawl_state_file, "C06.save-file: the positions go to the scan state file");
	vc_assert(!g_locked, "C06.save-unlocked");
#ifdef VC_NATIVE
	vc_assert(g_snapped && s == "positions", "C06.save-text: exactly the positions are written");
#else
	vc_assert(g_snapped && reinterpret_cast<Str *>(&s)->p == g_text, "C06.save-text: exactly the positions are written");
#endif
	vc_assert(roots().m_crawl_clean == g_clean0, "C06.save-early: positions are not taken for saved before they are");
	others();
	if (vc_nd_bool("write fails")) throw std::runtime_error("write");
	g_written = 1;
}
__attribute__((used)) std::shared_ptr<BeesRoots> h_roots(BeesContext *) { return std::shared_ptr<BeesRoots>(std::shared_ptr<BeesRoots>(), &roots()); }
__attribute__((used)) Hold h_hold(void *, const BeesCrawlState &s) { g_held = s.m_objectid == g_root; g_at_hold = roots().m_crawl_dirty; return Hold(Hold(), reinterpret_cast<PHS *>(g_holder)); }
// the map of scans: whether ours is in it
typedef BeesRoots::CrawlMap Map;
struct Node { char h[32]; std::pair<const uint64_t, std::shared_ptr<BeesCrawl>> kv; };
alignas(16) char g_node[sizeof(Node)];
static Map::iterator it() { return Map::iterator(reinterpret_cast<std::_Rb_tree_node_base *>(g_node)); }
__attribute__((used)) size_t h_count(const Map *, const uint64_t &k) { vc_assert(g_locked, "C06.map-lock: the scans are changed under their lock"); return k == g_root && g_present; }
__attribute__((used)) size_t h_size(const Map *) { vc_assert(g_locked, "C06.map-lock: the scans are changed under their lock"); return g_size; }
__attribute__((used)) size_t h_erase(Map *, const uint64_t &k) { vc_assert(g_locked && k == g_root, "C06.map-erase"); const size_t rv = g_present; if (g_present) { g_changed = 1; --g_size; } g_present = 0; return rv; }
__attribute__((used)) Map::iterator h_find(Map *m, const uint64_t &k) { vc_assert(g_locked && k == g_root, "C06.map-find"); return g_present ? it() : m->end(); }
__attribute__((used)) std::pair<Map::iterator, bool> h_insert(Map *, std::pair<uint64_t, std::shared_ptr<BeesCrawl>> &p)
{
	vc_assert(g_locked && p.first == g_root, "C06.map-insert");
	const bool n = !g_present; if (n) { g_changed = 1; ++g_size; g_present = 1; }
	return std::pair<Map::iterator, bool>(it(), n);
}
__attribute__((used)) std::shared_ptr<BeesCrawl> h_crawl_new(std::shared_ptr<BeesContext> &, const BeesCrawlState &s) { vc_assert(s.m_root == g_root, "C06.new-root: a new scan starts at the position given"); return std::shared_ptr<BeesCrawl>(std::shared_ptr<BeesCrawl>(), crawl(1)); }
__attribute__((used)) void h_undefer(BeesCrawl *c, bool d) { if (!d) g_undeferred = 1; }
}
static void setup()
{
	g_locked = g_snapped = g_written = g_held = g_changed = g_undeferred = 0; g_root = vc_nd<uint64_t>("root");
	g_present = vc_nd_bool("present"); g_size = vc_nd_range(g_present, 1ULL << 40, "scans");
	// clean is a version that was current before
	g_dirty0 = roots().m_crawl_dirty = vc_nd_range(0, 1ULL << 60, "dirty"); g_clean0 = roots().m_crawl_clean = vc_nd_range(0, g_dirty0, "clean"); g_empty = vc_nd_bool("nothing to write");
}
VC_HARNESS(h_save)
{
	setup(); bool t = false;
	try { roots().state_save(); } catch (...) { t = true; }
	if (!g_locked) others();
	if (t) { vc_assert(roots().m_crawl_clean == g_clean0, "C06.save-failed: a failed save leaves the positions marked as changed"); vc_cover("failed"); return; }
	vc_assert(roots().m_crawl_clean == g_clean0 || (g_snapped && roots().m_crawl_clean <= g_snap && (g_written || g_empty)), "C06.saved: positions are taken for saved only as of the moment that was written");
	vc_assert(roots().m_crawl_clean >= g_clean0, "C06.saved-monotonic");
	vc_assert(g_clean0 == g_dirty0 || roots().m_crawl_clean >= g_dirty0, "C06.save-done: every change made before a save is saved by it");
	vc_assert(!g_locked, "C06.unlocked");
	if (g_written) vc_cover("saved"); else vc_cover("nothing");
}
VC_HARNESS(h_position)
{
	setup();
	auto &c = *crawl(0);
#ifndef VC_NATIVE
	c.m_ctx = std::shared_ptr<BeesContext>(std::shared_ptr<BeesContext>(), reinterpret_cast<BeesContext *>(g_ctx));
#endif
	BeesCrawlState s; s.m_objectid = g_root;
	if (vc_nd_bool("hold")) { auto h = c.hold_state(s); vc_assert(h.get() == reinterpret_cast<PHS *>(g_holder), "C06.hold: the position is held for the caller"); vc_cover("hold"); }
	else { c.set_state(s); vc_cover("set"); }
	vc_assert(g_held, "C06.recorded: the position given is recorded");
	vc_assert(roots().m_crawl_dirty > g_at_hold, "C06.marked: a change of position is marked after it was made, so that the next save includes it");
	vc_assert(!g_locked, "C06.unlocked");
}
VC_HARNESS(h_scans)
{
	setup(); const uint64_t present = g_present, size = g_size, dirty = g_dirty0;
	auto &n = *reinterpret_cast<Node *>(g_node); const_cast<uint64_t &>(n.kv.first) = g_root;
#ifdef VC_NATIVE
	new (&n.kv.second) std::shared_ptr<BeesCrawl>(std::shared_ptr<BeesCrawl>(), crawl(0));
#else
	n.kv.second = std::shared_ptr<BeesCrawl>(std::shared_ptr<BeesCrawl>(), crawl(0));
#endif
	BeesCrawlState s; s.m_root = g_root; bool t = false;
	const bool add = vc_nd_bool("add");
	std::shared_ptr<BeesCrawl> rv;
	try { if (add) rv = roots().insert_root(s); else roots().crawl_state_erase(s); } catch (...) { t = true; }
	vc_assert(!g_locked && !t, "C06.unlocked");
	if (add) { vc_assert(g_present && g_undeferred && rv.get() == crawl(0), "C06.scan-added: a subvolume's scan is there and active after it was added"); vc_cover("added"); }
	else { vc_assert(!present || size < 2 || !g_present, "C06.scan-removed: the scan of a removed subvolume is removed, except the last one"); vc_assert(size >= 2 || g_present == present, "C06.last-scan: the last scan is kept"); vc_cover("removed"); }
	vc_assert(!g_changed || roots().m_crawl_dirty > dirty, "C06.scans-marked: a change of the set of scans is marked to be saved");
}
