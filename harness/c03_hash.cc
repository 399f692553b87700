// Contract of the hash table operations on one bucket, for every content of the bucket, every hash, address and position.
// The proof tracks a few universally quantified cells of the bucket (the witness k, its neighbour, and the cells a
// search must find); every other cell is arbitrary, constrained only by what "first"/"last" mean.  The native replay
// uses a real bucket and checks every cell.
#include "open.h"
#include "src/bees-hash.cc"
using namespace crucible;
typedef BeesHashTable::Cell Cell;
enum { N = BLOCK_SIZE_HASHTAB_BUCKET / sizeof(Cell), T = 3 };
struct C2 { uint64_t h, a; };
static bool eq(const C2 &a, const C2 &b) { return a.h == b.h && a.a == b.a; }
static bool zero(const C2 &a) { return a.h == 0 && a.a == 0; }
extern "C" {
#ifdef VC_NATIVE
C2 g_tab[N + 2];
#else
C2 g_tab[1];
#endif
	// address space of the bucket (cells 1..N) between its neighbours' cells 0 and N + 1
uint64_t g_t[T]; C2 g_v[T], g_ov[T];	// tracked cells
uint64_t g_last, g_stored, g_cidx; C2 g_cval;
C2 g_mv; uint64_t g_k, g_pos, g_hash, g_ext, g_m, g_e, g_e1, g_e2;	// first match, first empty, first empty from pos, last empty before pos
uint64_t g_fetched, g_locked, g_dirty, g_pushed, g_lastpush; void *g_vec;
// what the indices mean for the content of any cell
bool fact(uint64_t i, const C2 &v)
{
	if (i < 1 || i > N) return true;
	if (i < g_m && eq(v, g_mv)) return false;
	if (i == g_m && !eq(v, g_mv)) return false;
	if (i < g_e && zero(v)) return false;
	if (i == g_e && !zero(v)) return false;
	if (i >= g_pos && i < g_e1 && zero(v)) return false;
	if (i == g_e1 && !zero(v)) return false;
	if (i > g_e2 && i < g_pos && zero(v)) return false;
	if (i == g_e2 && !zero(v)) return false;
	return true;
}
static uint64_t ix(const void *p) { return vc_pointer_offset(p) / sizeof(C2); }
static C2 cell(uint64_t i)
{
#ifdef VC_NATIVE
	return g_tab[i];
#else
	for (int j = 0; j < T; ++j) if (g_t[j] == i) return g_v[j];
	if (i == g_cidx) return g_cval;
	g_cidx = i; g_cval = C2 { vc_nd<uint64_t>("other"), vc_nd<uint64_t>("other") };
	if (!g_stored) vc_assume(fact(i, g_cval));
	return g_cval;
#endif
}
uint64_t h_ld(const void *p, int size)
{
	const uint64_t o = vc_pointer_offset(p);
	vc_assert(size == 8 && o % 8 == 0 && o >= sizeof(C2) && o < (N + 1) * sizeof(C2), "C03.inside: only cells of the bucket are read");
	const C2 c = cell(o / sizeof(C2));
	return o % sizeof(C2) ? c.a : c.h;
}
void h_st(void *p, int size, uint64_t x)
{
	const uint64_t o = vc_pointer_offset(p), i = o / sizeof(C2);
	vc_assert(size == 8 && o % 8 == 0 && o >= sizeof(C2) && o < (N + 1) * sizeof(C2), "C03.inside: only cells of the bucket are written");
	vc_assert(g_locked == 1 && g_fetched, "C03.locked: a bucket is written only after it was loaded from disk and while it is locked");
	g_stored = 1; if (i == g_cidx) g_cidx = 0;
	for (int j = 0; j < T; ++j) if (g_t[j] == i) { if (o % sizeof(C2)) g_v[j].a = x; else g_v[j].h = x; }
}
void h_mv(void *d, const void *s, uint64_t n)
{
	const uint64_t di = ix(d), si = ix(s), l = n / sizeof(C2); C2 nv[T];
	vc_assert(vc_pointer_offset(d) % sizeof(C2) == 0 && vc_pointer_offset(s) % sizeof(C2) == 0 && n % sizeof(C2) == 0 && di >= 1 && si >= 1 && di + l <= N + 1 && si + l <= N + 1, "C03.inside: only cells of the bucket are moved");
	for (int j = 0; j < T; ++j) nv[j] = g_t[j] >= di && g_t[j] < di + l ? cell(g_t[j] - di + si) : g_v[j];
	for (int j = 0; j < T; ++j) g_v[j] = nv[j];
	if (l) { g_stored = 1; g_cidx = 0; }
}
// loop invariant vocabulary
bool inv_at(const void *p) { const uint64_t o = vc_pointer_offset(p); return o % sizeof(C2) == 0 && o <= (N + 2) * sizeof(C2); }
bool inv_shift(const void *p, const void *e)
{
	// cells up to p are untouched, cells after p up to e have moved back by one, cells after e are untouched
	const uint64_t i = ix(p), n = ix(e);
	return eq(g_v[0], g_k > i && g_k <= n ? g_ov[1] : g_ov[0]) && (g_k > i + 1 || eq(g_v[1], g_ov[1]));
}
bool inv_cache() { return g_stored || !g_cidx || fact(g_cidx, g_cval); }
bool inv_alias() { for (int j = 1; j < T; ++j) for (int i = 0; i < j; ++i) if (g_t[i] == g_t[j] && !eq(g_v[i], g_v[j])) return false; return true; }
bool inv_front(const void *) { return eq(g_v[2], g_ov[2]); }
bool inv_same(const void *) { bool r = true; for (int j = 0; j < T; ++j) if (!eq(g_v[j], g_ov[j])) r = false; return r; }
bool inv_le(const void *p, const void *e) { return vc_pointer_offset(p) <= vc_pointer_offset(e); }
bool inv_ge(const void *p, const void *e) { return vc_pointer_offset(p) >= vc_pointer_offset(e); }
bool inv_lo(const void *p) { return ix(p) >= 1; }
bool inv_hi(const void *p) { return ix(p) <= N + 1; }
bool inv_pos(const void *p) { return ix(p) >= g_pos; }
bool inv_m(const void *p) { return ix(p) <= g_m; }
bool inv_e(const void *p) { return ix(p) <= g_e; }
bool inv_e1(const void *p) { return ix(p) <= g_e1; }
bool inv_e2(const void *p) { return ix(p) >= g_e2; }
bool inv_next(const void *p, const void *q) { return vc_pointer_offset(p) == vc_pointer_offset(q) + sizeof(C2); }
static bool wanted(const C2 &c) { return c.h == g_hash && c.a >= 0x1000; }
bool inv_found(const void *p) { return g_pushed == (g_k < ix(p) && wanted(g_ov[0])) && g_lastpush < ix(p); }

__attribute__((used)) std::pair<Cell *, Cell *> h_range(BeesHashTable *, uint64_t hash)
{
	vc_assert(hash == g_hash, "C03.bucket: an operation looks in the bucket of its hash only");
	vc_assert(g_fetched && g_locked == 1, "C03.loaded: a bucket is used only after it was loaded from disk and while it is locked");
	return std::make_pair(reinterpret_cast<Cell *>(g_tab + 1), reinterpret_cast<Cell *>(g_tab + 1 + N));
}
__attribute__((used)) void h_fetch(BeesHashTable *, uint64_t hash) { vc_assert(hash == g_hash && !g_locked, "C03.fetch: the extent of the hash is loaded"); g_fetched = 1; }
__attribute__((used)) uint64_t h_extent(BeesHashTable *, uint64_t hash) { vc_assert(hash == g_hash, "C03.extent: the extent of the hash is marked"); return g_ext; }
__attribute__((used)) void h_dirty(BeesHashTable *, uint64_t e) { vc_assert(e == g_ext && g_locked == 1, "C03.dirty-locked: the extent of the hash is marked for writing while locked"); g_dirty = 1; }
__attribute__((used)) std::unique_lock<std::mutex> h_lock(BeesHashTable *, uint64_t hash) { vc_assert(hash == g_hash, "C03.lock: the extent of the hash is locked"); static std::mutex m; return std::unique_lock<std::mutex>(m); }
// assumed contract of std::find: the first equal element, or the end
__attribute__((used)) Cell *h_find(Cell *f, Cell *l, const Cell &v)
{
#ifdef VC_NATIVE
	while (f != l && !(*f == v)) ++f;
	return f;
#else
	vc_assert(f == reinterpret_cast<Cell *>(g_tab + 1) && l == reinterpret_cast<Cell *>(g_tab + 1 + N), "C03.search: the whole bucket is searched");
	vc_assert(!g_stored, "C03.search-first: the bucket is searched before it is changed");
	const C2 c = { v.e_hash, v.e_addr };
	vc_assert(eq(c, g_mv) || zero(c), "C03.search-what: the entry or an empty cell is searched for");
	return reinterpret_cast<Cell *>(g_tab + (eq(c, g_mv) ? g_m : g_e));
#endif
}
__attribute__((used)) size_t h_random(void *, void *) { return g_pos - 1; }
__attribute__((used)) void h_push(std::vector<Cell> *v, const Cell &c)
{
#ifndef VC_NATIVE
	vc_assert(vc_same_object(&c, g_tab), "C03.lookup-source: results come from the bucket");
	const uint64_t i = ix(&c);
	vc_assert(wanted(cell(i)), "C03.lookup-only: only entries with the hash and a usable address are returned");
	vc_assert(i > g_lastpush && g_vec == v, "C03.lookup-order: entries are returned in order");
	g_lastpush = i; if (i == g_k) ++g_pushed;
#endif
}
// never called: takes the addresses the loads and stores of the proof go through
__attribute__((used)) void h_keep() { h_ld(nullptr, 0); h_st(nullptr, 0, 0); h_mv(nullptr, nullptr, 0); }
int vcx_pthread_mutex_lock(void *) { ++g_locked; return 0; }
int vcx_pthread_mutex_unlock(void *) { --g_locked; return 0; }
}
static uint64_t g_table[(sizeof(BeesHashTable) + 7) / 8];
static BeesHashTable *table() { return reinterpret_cast<BeesHashTable *>(g_table); }
static C2 g_nold[N + 2];
static void fill()
{
	g_hash = vc_nd<uint64_t>("hash"); g_mv.h = g_hash; g_mv.a = vc_nd_range(0x1000, ~0ULL, "addr"); g_ext = vc_nd<uint64_t>("ext");
	g_pos = vc_nd_range(1, N, "pos"); g_k = vc_nd_range(1, N, "witness");
	g_m = vc_nd_range(1, N + 1, "first match"); g_e = vc_nd_range(1, N + 1, "first empty");
	g_e1 = vc_nd_range(g_pos, N + 1, "first empty from pos"); g_e2 = vc_nd_range(0, g_pos - 1, "last empty before pos");
	g_fetched = g_locked = g_dirty = g_stored = g_cidx = g_pushed = g_lastpush = 0; g_vec = nullptr;
	// the two descriptions of the empty cells agree
	vc_assume(g_e2 ? g_e <= g_e2 : g_e == g_e1);
	vc_assume(g_e != g_pos || g_e1 == g_pos);
	const uint64_t t[T] = { g_k, g_k - 1, 1 };
	for (int j = 0; j < T; ++j) {
		g_t[j] = t[j]; g_v[j].h = vc_nd<uint64_t>("h"); g_v[j].a = vc_nd<uint64_t>("a");
		for (int i = 0; i < j; ++i) if (g_t[i] == g_t[j]) { if (vc_symbolic()) vc_assume(eq(g_v[i], g_v[j])); else g_v[j] = g_v[i]; }
		if (vc_symbolic()) vc_assume(fact(g_t[j], g_v[j]));
		g_ov[j] = g_v[j];
	}
#ifdef VC_NATIVE
	// build a real bucket with these landmarks: tracked cells where they fit, otherwise a few kinds of entries
	vc_assume(g_m != g_e && g_m != g_e1 && g_m != g_e2 || g_m > N);
	for (uint64_t i = 0; i < N + 2; ++i) {
		C2 c = { g_hash, 0x100000 + i * 0x1000 };
		switch (vc_nd_range(0, 5, "kind")) {
			case 0: c = C2 { 0, 0 }; break;
			case 1: c = g_mv; break;
			case 2: c.h = ~g_hash; break;
			case 3: c.a = i; break;
			case 4: c = C2 { 0, g_mv.a }; break;
		}
		for (int j = T - 1; j >= 0; --j) if (g_t[j] == i) c = g_v[j];
		if (i == g_m) c = g_mv;
		if (i == g_e || i == g_e1 || i == g_e2) c = C2 { 0, 0 };
		if (!fact(i, c)) c = C2 { g_hash ^ 1, 0x100000 + i * 0x1000 };
		vc_assume(fact(i, c));
		g_tab[i] = g_nold[i] = c;
	}
	for (int j = 0; j < T; ++j) g_v[j] = g_ov[j] = g_tab[g_t[j]];
#endif
}
static C2 now(uint64_t i, int j) {
#ifdef VC_NATIVE
	return g_tab[i];
#else
	return g_v[j];
#endif
}
static C2 old(uint64_t i, int j) {
#ifdef VC_NATIVE
	return g_nold[i];
#else
	return g_ov[j];
#endif
}
// the cells up to j moved back by one from first on, the entry put at first
struct Ch { bool put, kept; };
static Ch shifted(uint64_t first, uint64_t j)
{
	Ch r = { true, true };
	uint64_t lo = g_k, hi = g_k;
#ifdef VC_NATIVE
	lo = 1; hi = N;
#endif
	for (uint64_t k = lo; k <= hi; ++k) {
		if (k == first) r.put &= eq(now(k, 0), g_mv);
		else r.kept &= eq(now(k, 0), k > first && k <= j ? old(k - 1, 1) : old(k, 0));
	}
	return r;
}
static Ch single(uint64_t j, const C2 &c)
{
	Ch r = { true, true };
	uint64_t lo = g_k, hi = g_k;
#ifdef VC_NATIVE
	lo = 1; hi = N;
#endif
	for (uint64_t k = lo; k <= hi; ++k) if (k == j) r.put &= eq(now(k, 0), c); else r.kept &= eq(now(k, 0), old(k, 0));
	return r;
}
VC_HARNESS(h_push_front)
{
	fill();
	const uint64_t j = g_m <= N ? g_m : g_e <= N ? g_e : N;
	const bool already = g_m == 1;
	bool t = false, rv = false; try { rv = table()->push_front_hash_addr(g_mv.h, g_mv.a); } catch (...) { t = true; }
	vc_assert(!t, "C03.front-total: inserting at the front cannot fail");
	vc_assert(rv == (g_m <= N), "C03.front-found: it is reported whether the entry was there");
	const Ch c = shifted(1, j);
	vc_assert(c.put, "C03.front-inserted: the entry is at the front");
	vc_assert(c.kept, "C03.front-kept: all other entries are kept in order, except the last one of a full bucket");
	vc_assert(g_dirty || already, "C03.front-dirty: a changed bucket is marked for writing");
	vc_assert(!g_locked, "C03.front-unlock: the lock is released");
	if (g_m <= N) vc_cover("found"); else if (g_e <= N) vc_cover("empty"); else vc_cover("evict");
}
VC_HARNESS(h_push_random)
{
	fill();
	bool t = false, rv = false; try { rv = table()->push_random_hash_addr(g_mv.h, g_mv.a); } catch (...) { t = true; }
	vc_assert(!t, "C03.random-total: inserting cannot fail");
	vc_assert(rv == (g_m <= N), "C03.random-found: it is reported whether the entry was there");
	Ch c;
	if (g_m <= g_pos) { c = single(0, g_mv); vc_cover("already"); }
	else if (g_m <= N) { c = shifted(g_pos, g_m); vc_cover("bump"); }
	else if (g_e1 <= N) { c = single(g_e1, g_mv); vc_cover("empty after"); }
	else if (g_e2) { c = single(g_e2, g_mv); vc_cover("empty before"); }
	else { c = shifted(g_pos, N); vc_cover("evict"); }
	vc_assert(c.put, "C03.random-inserted: the entry is in the bucket");
	vc_assert(c.kept, "C03.random-kept: all other entries are kept, except the last one of a full bucket");
	vc_assert(g_dirty || g_m <= g_pos, "C03.random-dirty: a changed bucket is marked for writing");
	vc_assert(!g_locked, "C03.random-unlock: the lock is released");
}
VC_HARNESS(h_erase)
{
	fill();
	bool t = false; try { table()->erase_hash_addr(g_mv.h, g_mv.a); } catch (...) { t = true; }
	vc_assert(!t, "C03.erase-total: removing an entry cannot fail");
	const Ch c = single(g_m <= N ? g_m : 0, C2 { 0, 0 });
	vc_assert(c.put, "C03.erase-removed: the entry is removed");
	vc_assert(c.kept, "C03.erase-kept: all other entries are kept");
	vc_assert(g_dirty || g_m > N, "C03.erase-dirty: a changed bucket is marked for writing");
	vc_assert(!g_locked, "C03.erase-unlock: the lock is released");
	if (g_m <= N) vc_cover("erased"); else vc_cover("missing");
}
VC_HARNESS(h_lookup)
{
	fill();
	bool t = false; 
	try {
		alignas(8) char buf[sizeof(std::vector<Cell>)]; g_vec = buf;
		std::vector<Cell> &r = *new (buf) std::vector<Cell>(table()->find_cell(g_hash));
#ifdef VC_NATIVE
		size_t n = 0;
		for (int i = 1; i <= N; ++i) if (wanted(g_nold[i])) { vc_assert(n < r.size() && r[n].e_hash == g_nold[i].h && r[n].e_addr == g_nold[i].a, "C03.lookup-all: every entry with the hash and a usable address is returned once"); ++n; }
		vc_assert(n == r.size(), "C03.lookup-only: only entries with the hash and a usable address are returned");
#else
		vc_assert(g_pushed == wanted(g_ov[0]), "C03.lookup-all: every entry with the hash and a usable address is returned once");
#endif
	} catch (...) { t = true; }
	vc_assert(!t, "C03.lookup-total: a lookup cannot fail");
	vc_assert(single(0, g_mv).kept, "C03.lookup-kept: a lookup changes nothing");
	vc_assert(!g_locked, "C03.lookup-unlock: the lock is released");
	if (wanted(g_ov[0])) vc_cover("hit"); else vc_cover("miss");
}
