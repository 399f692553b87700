// Contracts of the lock that keeps groups of operations apart.
#include "open.h"
#include "lib/multilock.cc"
#include "lib/error.cc"
using namespace crucible;
typedef std::map<std::string, size_t> Map;
struct Node { char h[32]; std::pair<const std::string, size_t> kv; };
extern "C" {
// names are told apart by their first character (kept in the short-string buffer)
static char id(const std::string &s) { return reinterpret_cast<const char *>(&s)[16]; }
__attribute__((used)) void h_str_copy(std::string *s, const std::string &o) { reinterpret_cast<char *>(s)[16] = id(o); }
__attribute__((used)) void h_str_lit(std::string *s, const char *c, const std::allocator<char> &) { reinterpret_cast<char *>(s)[16] = c[0]; }
__attribute__((used)) void h_str_end(std::string *) { }
// ghost: the holders of one group (mine) and of one arbitrary other group
uint64_t g_locked, g_w, g_busy, g_idx, g_at, g_n, g_cur, g_waits, g_notified, g_have, g_checked, g_ones, g_holds, g_any;
alignas(16) char g_nw[sizeof(Node)], g_no[sizeof(Node)], g_nm[sizeof(Node)];
alignas(16) uint64_t g_ml[(sizeof(MultiLocker) + 7) / 8];
static MultiLocker &ml() { return *reinterpret_cast<MultiLocker *>(g_ml); }
static Node &W() { return *reinterpret_cast<Node *>(g_nw); }
static Node &O() { return *reinterpret_cast<Node *>(g_no); }
static Node &M() { return *reinterpret_cast<Node *>(g_nm); }
// the invariant that every h_get keeps: operations of at most one group are held
static uint64_t other() { const uint64_t v = vc_nd<uint64_t>("other"); return W().kv.second || M().kv.second ? 0 : v; }
static void apart() { vc_assume(!W().kv.second || !M().kv.second); }
static void *header() { return &ml().m_counters._M_t._M_impl._M_header; }
int vcx_pthread_mutex_lock(void *m)
{
	vc_assert(m == &ml().m_mutex && !g_locked, "C14.lock: the counters have one lock"); g_locked = 1;
	W().kv.second = vc_nd<uint64_t>("others"); apart(); g_checked = 0; return 0;
}
int vcx_pthread_mutex_unlock(void *) { g_locked = 0; g_checked = 0; return 0; }
__attribute__((used)) bool h_ne(const std::string &a, const std::string &b) { return id(a) != id(b); }
__attribute__((used)) bool h_eq(const std::string &a, const std::string &b) { return id(a) == id(b); }
__attribute__((used)) int h_cmp(const std::string &a, const std::string &b) { return id(a) - id(b); }
// the counter of a group, under the lock
__attribute__((used)) size_t *h_index(Map *, const std::string &k)
{
	vc_assert(g_locked, "C14.locked: counters are touched under the lock");
	g_have = 1; return id(k) == 'm' ? &M().kv.second : id(k) == 'w' ? &W().kv.second : &O().kv.second;
}
struct ins_ret { void *n; bool b; };
__attribute__((used)) ins_ret h_insert(Map *, const void *)
{
	vc_assert(g_locked, "C14.locked: counters are touched under the lock");
	const bool fresh = !g_have; if (fresh) M().kv.second = 0; g_have = 1; return ins_ret { g_nm, fresh };
}
static void *node(uint64_t i) { return i >= g_n ? header() : i == g_at ? g_nw : i == g_cur ? g_nm : g_no; }
__attribute__((used)) void *h_begin(Map *) { vc_assert(g_locked, "C14.locked: counters are touched under the lock"); g_idx = 0; return node(0); }
__attribute__((used)) void *h_end(Map *) { return header(); }
__attribute__((used)) void *h_inc(void *) { vc_assert(g_idx < g_n, "C14.end"); if (node(g_idx) == g_no && O().kv.second) g_any = 1; ++g_idx; O().kv.second = other(); return node(g_idx); }
bool inv_node(const void *p) { return g_idx <= g_n && p == node(g_idx) && (g_idx <= g_at || !W().kv.second) && !g_any; }
void hav() { O().kv.second = other(); }
}
static void start(uint64_t)
{
	new (const_cast<std::string *>(&W().kv.first)) std::string("w"); new (const_cast<std::string *>(&O().kv.first)) std::string("o"); new (const_cast<std::string *>(&M().kv.first)) std::string("m");
	W().kv.second = vc_nd<uint64_t>("others"); M().kv.second = vc_nd_range(0, ~0ULL >> 1, "mine");
	g_n = vc_nd_range(0, vc_symbolic() ? 1ULL << 40 : 6, "groups"); g_at = vc_nd_range(0, vc_symbolic() ? 1ULL << 40 : 6, "which"); g_cur = vc_nd_range(0, vc_symbolic() ? 1ULL << 40 : 6, "this"); vc_assume(g_cur != g_at);
	g_locked = g_idx = g_waits = g_notified = g_checked = g_any = 0; g_have = g_cur < g_n; if (!g_have) M().kv.second = 0;
	apart(); O().kv.second = other();
#ifdef VC_NATIVE
	new (&ml()) MultiLocker();
#endif
}
VC_HARNESS(h_available)
{
	start(0); g_locked = 1; vc_assume(g_at < g_n);
	static_cast<std::_Rb_tree_node_base *>(header())->_M_left = static_cast<std::_Rb_tree_node_base *>(node(0));
	const std::string mine("m");
	const bool r = ml().is_lock_available(mine);
	if (r) { vc_assert(!W().kv.second, "C14.apart: an operation may begin only while no operation of any other group is held"); vc_assert(g_idx == g_n, "C14.every: every group is looked at"); vc_cover("free"); }
	else { vc_assert(g_idx < g_n && node(g_idx) != g_nm && (node(g_idx) == g_nw ? W() : O()).kv.second, "C14.together: an operation is held back only by one of another group"); vc_cover("held back"); }
}
#ifdef GET
extern "C" {
// contract of is_lock_available
__attribute__((used)) bool h_avail(MultiLocker *, const std::string &t)
{
	vc_assert(g_locked && id(t) == 'm', "C14.asked: whether the group may go is asked under the lock");
	g_checked = vc_nd_bool("available"); if (g_checked) vc_assume(!W().kv.second);
	return g_checked;
}
__attribute__((used)) void h_wait(void *, std::unique_lock<std::mutex> *l)
{
	vc_assert(g_locked && l->owns_lock(), "C14.wait: waiting gives the lock up");
	vc_assert(!g_checked, "C14.wait-needed: only an operation that may not go waits");
	g_waits = 1; W().kv.second = vc_nd<uint64_t>("others"); M().kv.second = vc_nd_range(0, ~0ULL >> 1, "mine"); g_holds = M().kv.second; apart();
}
__attribute__((used)) void h_notify(void *) { g_notified = 1; }
__attribute__((used)) void h_notify_one(void *) { }
bool inv_get() { return !(W().kv.second && M().kv.second) && g_locked == 1 && g_have == 1 && M().kv.second == g_holds && g_holds <= ~0ULL >> 1 && !g_checked; }
void hav_get() { W().kv.second = vc_nd<uint64_t>("w"); M().kv.second = vc_nd<uint64_t>("m"); }
}
VC_HARNESS(h_get)
{
	start(0); g_holds = M().kv.second; const std::string mine("m"); std::shared_ptr<MultiLocker::LockHandle> h; bool t = false;
	try { h = ml().get_lock_private(mine); } catch (...) { t = true; }
	vc_assert(!g_locked, "C14.released: the lock on the counters is released");
	if (t) { vc_assert(M().kv.second == g_holds, "C14.failed: a failed request holds nothing"); return; }
	vc_assert(h && h->m_locked && &h->m_parent == &ml() && id(h->m_type) == 'm', "C14.handle: the operation gets a handle of its group");
	vc_assert(M().kv.second == g_holds + 1, "C14.counted: the operation is counted once");
	vc_assert(!W().kv.second, "C14.get-apart: the operation begins only while no operation of any other group is held");
	vc_cover("held");
	if (g_waits) vc_cover("waited");
}
VC_HARNESS(h_put)
{
	start(0); vc_assume(M().kv.second > 0); const uint64_t before = M().kv.second; const bool held = vc_nd_bool("held"); bool t = false;
	{
		alignas(16) static char mem[sizeof(MultiLocker::LockHandle)]; auto h = new (mem) MultiLocker::LockHandle(std::string("m"), ml());
		vc_assert(!h->m_locked, "C14.fresh: a handle holds nothing until it is given the lock");
		if (held) h->set_locked(true);
		try { h->~LockHandle(); } catch (...) { t = true; }
	}
	vc_assert(!t && !g_locked, "C14.put-done: releasing succeeds");
	vc_assert(M().kv.second == before - held, "C14.put: an operation is uncounted exactly once, if it was counted");
	vc_assert(!held || M().kv.second || g_notified, "C14.wake: the last operation of a group to end wakes those that wait");
	vc_cover("put");
}
uint64_t g_private, g_handle;
extern "C" {
// contract of get_lock_private
__attribute__((used)) void h_private(std::shared_ptr<MultiLocker::LockHandle> *r, MultiLocker *p, const std::string &t)
{
	vc_assert(p == &s_process_instance && id(t) == 'm', "C14.process: the operation joins its group in the lock of the process"); g_private = 1;
	new (r) std::shared_ptr<MultiLocker::LockHandle>(std::shared_ptr<void>(), reinterpret_cast<MultiLocker::LockHandle *>(&g_handle));
}
}
VC_HARNESS(h_lock)
{
	g_private = 0; const std::string mine("m"); const bool on = vc_nd_bool("on");
	MultiLocker::enable_locking(on);
	auto h = MultiLocker::get_lock(mine);
	vc_assert(on == !!g_private && h.get() == (on ? reinterpret_cast<MultiLocker::LockHandle *>(&g_handle) : nullptr), "C14.enabled: an operation is kept apart exactly when locking is on");
	vc_cover("locked");
}
#endif
