// Contracts of the progress tracker: the checkpoint is the oldest unfinished work item.
#include "open.h"
#include "src/bees-roots.cc"
using namespace crucible;
typedef ProgressTracker<BeesCrawlState> PT;
typedef PT::ProgressTrackerState PTS;
typedef PT::ProgressHolderState PHS;
extern "C" {
uint64_t g_n, g_locked, g_locks, g_in;	// number of other work items in progress, and whether ours is among them
BeesCrawlState g_mine, g_v, g_e0;
struct Node { char h[32]; std::pair<BeesCrawlState, PHS *> kv; };
alignas(16) char g_min[sizeof(Node)];	// the oldest of the others
alignas(16) char g_own[sizeof(Node)];
alignas(16) uint64_t g_pts[(sizeof(PTS) + 7) / 8];
static PTS &pts() { return *reinterpret_cast<PTS *>(g_pts); }
static Node &mn() { return *reinterpret_cast<Node *>(g_min); }
static Node &own() { return *reinterpret_cast<Node *>(g_own); }
typedef std::set<PTS::key_type> Set;
static bool lt(const BeesCrawlState &a, const BeesCrawlState &b)
{
#define F(x) if (a.x != b.x) return a.x < b.x;
	F(m_min_transid) F(m_max_transid) F(m_objectid) F(m_offset) return a.m_root < b.m_root;
}
static bool eq(const BeesCrawlState &a, const BeesCrawlState &b) { return !lt(a, b) && !lt(b, a) && a.m_started == b.m_started; }
static Set::iterator it(Node &n) { return Set::iterator(reinterpret_cast<std::_Rb_tree_node_base *>(&n)); }
#ifndef VC_NATIVE
int vcx_pthread_mutex_lock(void *m) { vc_assert(m == &pts().m_mutex && !g_locked, "C07.lock: one lock protects the tracker"); g_locked = 1; ++g_locks; return 0; }
int vcx_pthread_mutex_unlock(void *m) { g_locked = 0; return 0; }
// the set of work items in progress: n others, the oldest of which is mn(), and perhaps our own
__attribute__((used)) std::pair<Set::iterator, bool> h_insert(Set *, PTS::key_type &k)
{
	vc_assert(g_locked && !g_in && eq(k.first, g_mine), "C07.insert: the item is recorded once, with its own position, under the lock");
	g_in = 1; own().kv.first = k.first; own().kv.second = k.second;
	return std::pair<Set::iterator, bool>(it(own()), true);
}
__attribute__((used)) size_t h_erase(Set *, const PTS::key_type &k)
{
	vc_assert(g_locked && g_in && eq(k.first, g_mine) && k.second == own().kv.second, "C07.erase: exactly the finished item is removed, under the lock");
	g_in = 0; return 1;
}
static Node &oldest() { return !g_in || (g_n && lt(mn().kv.first, own().kv.first)) ? mn() : own(); }
__attribute__((used)) Set::iterator h_begin(Set *) { vc_assert(g_locked && (g_n || g_in), "C07.begin: the oldest item is looked up only if there is one"); return it(oldest()); }
__attribute__((used)) bool h_empty(Set *) { vc_assert(g_locked, "C07.locked"); return !g_n && !g_in; }
__attribute__((used)) size_t h_size(Set *) { vc_assert(g_locked, "C07.locked"); return g_n + g_in; }
#endif
}
static BeesCrawlState some(const char *) { BeesCrawlState s; s.m_root = vc_nd<uint64_t>("root"); s.m_objectid = vc_nd<uint64_t>("objectid"); s.m_offset = vc_nd<uint64_t>("offset"); s.m_min_transid = vc_nd<uint64_t>("min_transid"); s.m_max_transid = vc_nd<uint64_t>("max_transid"); s.m_started = vc_nd<int64_t>("started"); return s; }
VC_HARNESS(h_progress)
{
	g_locked = g_locks = g_in = 0;
	g_n = vc_nd_range(0, vc_symbolic() ? 1ULL << 40 : 4, "others");
	g_mine = some("mine");
#ifdef VC_NATIVE
	PT t(some("start")); std::vector<PT::ProgressHolder> hs; BeesCrawlState low; g_e0 = t.end();
	for (uint64_t i = 0; i < g_n; ++i) { const auto s = some("other"); hs.push_back(t.hold(s)); if (!i || lt(s, low)) low = s; if (lt(g_e0, s)) g_e0 = s; }
#else
	// an arbitrary tracker: the begin is the oldest item, or the end if there is none; no item is past the end
	g_e0 = some("end"); mn().kv.first = some("oldest"); mn().kv.second = 0;
	vc_assume(!g_n || !lt(g_e0, mn().kv.first));
	pts().m_end = g_e0; pts().m_begin = g_n ? mn().kv.first : g_e0;
	const BeesCrawlState low = mn().kv.first;
	PT t(g_mine); auto &p = t.m_state; new (&p) std::shared_ptr<PTS>(std::shared_ptr<PTS>(), &pts());
#endif
	const BeesCrawlState end1 = lt(g_e0, g_mine) ? g_mine : g_e0;
	{
		auto h = t.hold(g_mine);
		vc_assert(eq(h->get(), g_mine), "C07.get: an item keeps its position");
		vc_assert(eq(t.begin(), g_n && lt(low, g_mine) ? low : g_n && !lt(g_mine, low) ? t.begin() : g_mine), "C07.oldest: while an item is in progress the checkpoint is the oldest item in progress");
		vc_assert(!lt(g_mine, t.begin()) && !(g_n && lt(low, t.begin())), "C07.not-past: the checkpoint never passes an item in progress");
		vc_assert(eq(t.end(), end1), "C07.end: the end is the furthest position ever recorded");
		// the last reference is dropped
#ifdef VC_NATIVE
		h.reset();
#else
		h.get()->~PHS();
#endif
	}
	vc_assert(eq(t.end(), end1), "C07.end-keeps: the end never moves back");
	if (g_n) vc_assert(!lt(t.begin(), low) && !lt(low, t.begin()), "C07.next-oldest: when an item is finished the checkpoint moves to the oldest remaining item");
	else vc_assert(eq(t.begin(), end1), "C07.all-done: when nothing is in progress the checkpoint is the end");
	if (g_n) vc_cover("others"); else vc_cover("alone");
#ifndef VC_NATIVE
	vc_assert(!g_in && !g_locked, "C07.released");
#endif
}
