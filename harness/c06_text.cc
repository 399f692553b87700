// Contract of the text of the scan state file: one line per scan, with the scan's checkpoint.
#include "open.h"
#include "src/bees-roots.cc"
using namespace crucible;
extern "C" {
alignas(16) uint64_t g_roots[(sizeof(BeesRoots) + 7) / 8], g_crawl[(sizeof(BeesCrawl) + 7) / 8], g_crawl2[(sizeof(BeesCrawl) + 7) / 8];
static BeesRoots &roots() { return *reinterpret_cast<BeesRoots *>(g_roots); }
typedef BeesRoots::CrawlMap Map;
struct Node { char h[32]; std::pair<const uint64_t, std::shared_ptr<BeesCrawl>> kv; };
alignas(16) char g_w[sizeof(Node)], g_o[sizeof(Node)];
uint64_t g_idx, g_at, g_n, g_key, g_seen, g_line, g_lines, g_current, g_begins;
BeesCrawlState g_state, g_other, g_cur;
static void *header() { return &roots().m_root_crawl_map._M_t._M_impl._M_header; }
static void *node(uint64_t i) { return i == g_n ? header() : i == g_at ? g_w : g_o; }
__attribute__((used)) void *h_inc(void *) { vc_assert(g_idx < g_n, "C06.text-end"); vc_assert(!g_seen, "C06.text-whole: a line is complete"); ++g_idx; return node(g_idx); }
bool inv_node(const void *p) { return g_idx <= g_n && p == node(g_idx) && !g_seen && !g_key && g_lines == (g_idx > g_at && g_state.m_max_transid); }
void hav() { g_other.m_max_transid = vc_nd<uint64_t>("other"); }
__attribute__((used)) BeesCrawlState h_begin(BeesCrawl *c)
{
	g_current = c == reinterpret_cast<BeesCrawl *>(g_crawl);
	g_cur = g_current ? g_state : g_other; return g_cur;
}
static bool is(const char *s, const char *k, int n) { for (int i = 0; i < n; ++i) if (s[i] != k[i]) return false; return s[n] == ' ' || !s[n]; }
__attribute__((used)) std::ostream &h_text(std::ostream &os, const char *s)
{
	if (s[0] == ' ' && !s[1]) return os;
	if (s[0] == '\n') {
		vc_assert(g_seen == 62, "C06.text-fields: a line has the subvolume, position and transaction range");
		if (g_current) ++g_lines;
		g_seen = g_key = 0; return os;
	}
	g_key = is(s, "root", 4) ? 1 : is(s, "objectid", 8) ? 2 : is(s, "offset", 6) ? 3 : is(s, "min_transid", 11) ? 4 : is(s, "max_transid", 11) ? 5 : is(s, "started", 7) ? 6 : 7;
	return os;
}
__attribute__((used)) std::ostream &h_num(std::ostream *os, uint64_t v)
{
	vc_assert(g_cur.m_max_transid, "C06.text-started: only scans with a transaction range are saved");
	vc_assert(g_key != 1 || v == g_cur.m_root, "C06.text-root: the subvolume is saved as it is");
	vc_assert(g_key != 2 || v == g_cur.m_objectid, "C06.text-objectid: the position is saved as it is");
	vc_assert(g_key != 3 || v == g_cur.m_offset, "C06.text-offset: the position is saved as it is");
	vc_assert(g_key != 4 || v == g_cur.m_min_transid, "C06.text-min: the transaction range is saved as it is");
	vc_assert(g_key != 5 || v == g_cur.m_max_transid, "C06.text-max: the transaction range is saved as it is");
	vc_assert(g_key != 6 || v == uint64_t(g_cur.m_started), "C06.text-time");
	vc_assert(g_key && (!(g_seen & (1 << g_key)) || g_key > 6), "C06.text-once: a value follows its name, once");
	if (g_key < 6) g_seen |= 1 << g_key;
	g_key = 0; return *os;
}
#ifndef VC_NATIVE
alignas(16) char g_os[8];
#endif
}
VC_HARNESS(h_text_out)
{
	g_n = vc_nd_range(0, vc_symbolic() ? 1ULL << 40 : 6, "scans"); g_at = vc_nd_range(0, vc_symbolic() ? 1ULL << 40 : 6, "which"); if (g_at >= g_n) g_at = g_n + 1;
	g_idx = g_key = g_seen = g_lines = g_current = 0;
	g_state.m_root = vc_nd<uint64_t>("root"); g_state.m_objectid = vc_nd<uint64_t>("objectid"); g_state.m_offset = vc_nd<uint64_t>("offset"); g_state.m_min_transid = vc_nd<uint64_t>("min"); g_state.m_max_transid = vc_nd<uint64_t>("max"); g_state.m_started = vc_nd_range(0, 1ULL << 40, "started");
	g_other = g_state; g_other.m_root = vc_nd<uint64_t>("root2"); g_other.m_max_transid = vc_nd<uint64_t>("max2");
	for (int i = 0; i < 2; ++i) {
		auto &p = reinterpret_cast<Node *>(i ? g_o : g_w)->kv.second;
		new (&p) std::shared_ptr<BeesCrawl>(std::shared_ptr<BeesCrawl>(), reinterpret_cast<BeesCrawl *>(i ? g_crawl2 : g_crawl));
	}
#ifdef VC_NATIVE
	std::ostringstream os; new (&roots().m_root_crawl_map) Map();
#else
	std::ostream &os = *reinterpret_cast<std::ostream *>(g_os);
#endif
	static_cast<std::_Rb_tree_node_base *>(header())->_M_left = static_cast<std::_Rb_tree_node_base *>(node(0));
	roots().state_to_stream(os);
	vc_assert(g_idx == g_n && !g_seen, "C06.text-all: every scan is visited");
	vc_assert(g_lines == (g_at < g_n && g_state.m_max_transid), "C06.text-line: every started scan has exactly one line");
	vc_cover("done");
}
