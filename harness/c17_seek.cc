// Contract of the backward search: the last item at or before the position is among those looked at.
#include "open.h"
#include "crucible/seeker.h"
#include "lib/error.cc"
using namespace crucible;
extern "C" {
// ghost: one arbitrary position that holds an item, and the highest position up to the target seen so far
uint64_t w_exists, w, g_target, g_any, g_seen, g_calls, r_empty, r_lo, r_hi, r_w, r_s, r_v, r_end;
static bool done() { return !w_exists || (g_any && g_seen >= w); }
static bool past() { return !w_exists || (g_target == ~0ULL && done()); }
bool inv_probe(uint64_t v) { return g_calls || v == g_target; }
bool inv_upper(uint64_t v) { return v <= g_target && (!g_calls || past() || w < v); }
bool inv_lower(uint64_t v) { return !v || (g_any && v <= g_seen); }
bool inv_flag(uint64_t v) { return !v || g_any; }
bool inv_all() { return g_calls <= 1 && g_any <= 1 && w_exists <= 1 && (!g_calls || past() || w < g_target) && (!g_any || g_seen <= g_target); }
alignas(16) void *g_dbg[2];
__attribute__((used)) void *h_dbg() { return g_dbg; }
bool inv_rev() { return g_calls == 1 && r_empty <= 1 && (r_empty ? r_end == 1 : (r_end <= 1 && (r_end || (r_v >= r_lo && r_v <= r_hi && (!r_w || r_v >= w) && !(r_v > r_s && r_v <= g_target))))) && (!r_w || (!r_empty && g_any && g_seen >= w)) && (r_empty || r_lo > g_target || (g_any && r_s <= g_seen && r_s <= g_target && r_lo <= r_s && r_s <= r_hi)) && (r_empty || r_lo <= g_target || !r_s); }
}
struct Rev {
	uint64_t operator*() const { vc_assert(!r_end, "C17.seek-end: only positions found are used"); return r_v; }
	bool operator!=(const Rev &) const { return !r_end; }
	Rev &operator++()
	{
		if (r_v == r_lo) { r_end = 1; return *this; }
		const uint64_t p = r_v; r_v = vc_nd_range(r_lo, p - 1, "before");
		if (p > r_s && r_v <= g_target) r_v = r_s;
		if (r_w && w < p) vc_assume(r_v >= w); // nothing found is left out
		return *this;
	}
};
// contract of a fetch: the positions from the lower one on that hold an item, in order, as far as it got
struct Found {
	bool empty() const { return r_empty; }
	const uint64_t *begin() const { return &r_lo; }
	Rev rbegin() const { r_v = r_hi; r_end = r_empty; return Rev(); }
	Rev rend() const { return Rev(); }
};
struct Fetch {
	Found operator()(uint64_t lower, uint64_t upper) const
	{
		vc_assert(lower <= upper && upper == g_target, "C17.seek-range: what lies up to the position is looked at");
		g_calls = 1; const bool in = w_exists && w >= lower && w <= upper;
		r_empty = vc_nd_bool("empty"); r_lo = r_hi = r_w = r_s = 0;
		if (r_empty) { vc_assume(!in); return Found(); }
		r_lo = vc_nd_range(lower, ~0ULL, "low"); r_hi = vc_nd_range(r_lo, ~0ULL, "high");
		if (in) { vc_assume(r_lo <= w); r_w = r_hi >= w; }
		// the highest position up to the target among those found
		if (r_lo <= g_target) {
			const uint64_t s = r_hi <= g_target ? r_hi : vc_nd_range(r_lo, g_target, "seen");
			if (r_w) vc_assume(s >= w);
			r_s = s;
			if (!g_any || s > g_seen) g_seen = s;
			g_any = 1;
		}
		return Found();
	}
};
VC_HARNESS(h_seek)
{
	w_exists = vc_nd_bool("exists"); w = vc_nd<uint64_t>("item"); g_target = vc_nd<uint64_t>("target"); const uint64_t step = vc_nd_range(1, ~0ULL, "step");
	vc_assume(!w_exists || w <= g_target);
	g_any = g_seen = g_calls = 0; bool t = false; uint64_t r = 0;
	try { r = seek_backward(g_target, Fetch(), step); } catch (...) { t = true; }
	if (t) return;
	vc_assert(g_calls, "C17.seek-asked: the tree is asked");
	vc_assert(done(), "C17.seek: the last item at or before the position is looked at");
	if (g_target != ~0ULL) vc_assert(!w_exists || r >= w, "C17.seek-result: the last position with an item is returned");
	vc_assert(r <= g_target, "C17.seek-limit: no later position is returned");
	if (r) vc_assert(g_any && r <= g_seen, "C17.seek-real: a position is returned only if an item was found there or after it");
	vc_cover("found");
}
