// Contracts of loading an extent of the hash table from disk and of writing changed extents back,
// with other threads changing the extent whenever its lock is not held.
#include "open.h"
#include "src/bees-hash.cc"
#include "lib/error.cc"
#include "lib/fd.cc"
using namespace crucible;
typedef BeesHashTable::Cell Cell;
struct C2 { uint64_t h, a; };
enum { EXT = 1 << 16 };
static bool eq(const C2 &a, const C2 &b) { return a.h == b.h && a.a == b.a; }
extern "C" {
#ifdef VC_NATIVE
C2 g_tab[4 * 8192];
#else
C2 g_tab[1];	// stands for the address space of the table; its cells are only reached through h_ld and h_st
#endif
uint64_t g_k, g_stored, g_cidx; C2 g_v, g_ov, g_cval;	// one tracked cell, any
uint64_t g_first;	// first cell of the extent
uint64_t g_ext, g_extents, g_locked, g_reads, g_readok, g_counted, g_dup, g_table_dirty;
alignas(8) char g_meta[sizeof(BeesHashTable::ExtentMetaData)];
std::mutex g_mx;
// versions of the content of the extent: in memory, in the copy being written, on disk
uint64_t g_mem, g_copy, g_disk, g_writes, g_flushing, g_may_env, g_copied;
static BeesHashTable::ExtentMetaData &meta() { return *reinterpret_cast<BeesHashTable::ExtentMetaData *>(g_meta); }
static uint64_t ix(const void *p) { return vc_pointer_offset(p) / sizeof(C2); }
static C2 cell(uint64_t i)
{
#ifdef VC_NATIVE
	return g_tab[i];
#else
	if (i == g_k) return g_v;
	if (i != g_cidx) { g_cidx = i; g_cval = C2 { vc_nd<uint64_t>("other"), vc_nd<uint64_t>("other") }; }
	return g_cval;
#endif
}
uint64_t h_ld(const void *p, int size)
{
	const uint64_t o = vc_pointer_offset(p);
	vc_assert(size == 8 && o % 8 == 0 && ix(p) >= g_first && ix(p) < g_first + 8192, "C03.load-inside: only the extent is read");
	const C2 c = cell(o / sizeof(C2));
	return o % sizeof(C2) ? c.a : c.h;
}
void h_st(void *p, int size, uint64_t x)
{
	const uint64_t o = vc_pointer_offset(p), i = o / sizeof(C2);
	vc_assert(size == 8 && o % 8 == 0 && i >= g_first && i < g_first + 8192, "C03.load-inside: only the extent is written");
	vc_assert(g_locked == 1, "C03.load-locked: an extent is written only while it is locked");
	if (i == g_cidx) { if (o % sizeof(C2)) g_cval.a = x; else g_cval.h = x; }
	if (i == g_k) { if (o % sizeof(C2)) g_v.a = x; else g_v.h = x; }
}
void h_mv(void *, const void *, uint64_t) { vc_assert(false, "C03.load-move: cells are not moved"); }
static bool toxic(uint64_t a) { return a & BeesAddress::c_toxic_mask; }
static C2 cleaned(const C2 &o, bool dup) { return !toxic(o.a) ? o : dup ? C2 { 0, 0 } : C2 { o.h, o.a & ~uint64_t(BeesAddress::c_toxic_mask) }; }
bool inv_at(const void *p) { const uint64_t o = vc_pointer_offset(p); return o % sizeof(C2) == 0 && ix(p) >= g_first && ix(p) <= g_first + 8192; }
bool inv_clean(const void *p) { return eq(g_v, g_k >= g_first && g_k < ix(p) ? cleaned(g_ov, g_dup) : g_ov); }
bool inv_index(uint64_t i) { return inv_clean(g_tab + g_first + i); }
__attribute__((used)) BeesHashTable::ExtentMetaData *h_at(void *, size_t i)
{
	if (i >= g_extents) throw std::out_of_range("vector::at");
	vc_assert(i == g_ext, "C04.meta: only the state of the extent itself is used");
	return &meta();
}
// another thread holds the lock of the extent for a while
static void env()
{
	if (g_may_env && vc_nd_bool("changed by another thread")) {
		++g_mem; meta().m_dirty = true;
#ifdef VC_NATIVE
		g_tab[g_first].h = g_mem;
#endif
	}
}
void *g_dm, *g_dcv; uint64_t g_dlocked, g_notified;
int vcx_pthread_mutex_lock(void *m) { if (m == g_dm) ++g_dlocked; if (m == &g_mx) { vc_assert(!g_locked, "C04.lock: an extent is not locked twice"); env(); ++g_locked; } return 0; }
int vcx_pthread_mutex_unlock(void *m) { if (m == g_dm) --g_dlocked; if (m == &g_mx) --g_locked; return 0; }
// contract of pread_or_die (C21)
__attribute__((used)) void h_pread(int fd, void *p, size_t n, off_t off)
{
	vc_assert(fd == 7 && p == g_tab + g_first && n == BLOCK_SIZE_HASHTAB_EXTENT && uint64_t(off) == g_first * sizeof(C2), "C03.load-place: an extent is read from its own place in the file");
	vc_assert(g_locked == 1, "C03.load-lock: an extent is read while it is locked");
	++g_reads;
	g_v.h = vc_nd<uint64_t>("h"); g_v.a = vc_nd<uint64_t>("a"); g_cidx = ~0ULL;
#ifdef VC_NATIVE
	for (uint64_t i = g_first; i < g_first + 8192; ++i) { g_tab[i].h = i / 3; g_tab[i].a = (0x100000 + i / 9 * 0x1000) | (i % 3 == 1 ? uint64_t(BeesAddress::c_toxic_mask) : 0); }
	if (g_k >= g_first && g_k < g_first + 8192) { g_tab[g_k] = g_v; if (vc_nd_bool("twin")) g_tab[g_first + (g_k == g_first)] = C2 { g_v.h, g_v.a & ~uint64_t(BeesAddress::c_toxic_mask) }; }
#endif
	g_ov = cell(g_k);
	if (vc_nd_bool("read fails")) throw std::runtime_error("pread");
	g_readok = 1;
}
__attribute__((used)) void h_unreadahead(int, off_t, size_t) { }
#ifndef VC_NATIVE
// contract of the set of loaded cells: built from the whole extent, then asked whether a cell was in it
__attribute__((used)) void h_set_range(void *, Cell *a, Cell *b, void *, void *) { vc_assert(a == reinterpret_cast<Cell *>(g_tab + g_first) && b == a + 8192, "C03.load-all: all cells of the extent are considered"); vc_assert(g_reads == 1 && !g_stored, "C03.load-order: duplicates are judged by what was loaded"); }
__attribute__((used)) size_t h_set_count(void *, const Cell &c)
{
	const bool r = vc_nd_bool("twin without the toxic bit");
	if (vc_same_object(&c, g_tab) && ix(&c) == g_k) { const C2 v = cell(g_k); vc_assert(v.h == g_ov.h && v.a == (g_ov.a & ~uint64_t(BeesAddress::c_toxic_mask)), "C03.load-twin: a toxic cell is compared without the toxic bit"); vc_assume(r == g_dup); }
	return r;
}
#endif
__attribute__((used)) void h_notify(void *c) { if (c == g_dcv) ++g_notified; }
__attribute__((used)) void h_keep() { h_ld(nullptr, 0); h_st(nullptr, 0, 0); h_mv(nullptr, nullptr, 0); }
#ifndef VC_NATIVE
// the copy of the extent that is written
__attribute__((used)) void h_bv(ByteVector *, uint8_t *a, uint8_t *b, size_t)
{
	vc_assert(a == reinterpret_cast<uint8_t *>(g_tab + g_first) && b == a + BLOCK_SIZE_HASHTAB_EXTENT, "C04.copy: exactly the extent is copied");
	vc_assert(g_locked == 1, "C04.copy-lock: the extent is copied while it is locked");
	if (vc_nd_bool("out of memory")) throw std::bad_alloc();
	g_copy = g_mem; g_copied = 1;
}
__attribute__((used)) void h_bv_end(ByteVector *) { }
#endif
__attribute__((used)) void h_pwrite(int fd, const ByteVector &v, off_t off)
{
	vc_assert(fd == 7 && uint64_t(off) == g_first * sizeof(C2), "C04.write-place: an extent is written to its own place in the file");
#ifdef VC_NATIVE
	vc_assert(v.size() == BLOCK_SIZE_HASHTAB_EXTENT, "C04.write-whole: the whole extent is written"); g_copied = 1; g_copy = g_tab[g_first].h;
#endif
	vc_assert(g_copied, "C04.write-copy: a copy of the extent is written");
	++g_writes;
	if (!g_locked) env();	// the write takes a while
	if (vc_nd_bool("write fails")) { g_disk = 0; throw std::runtime_error("pwrite"); }
	g_disk = g_copy;
	if (!g_locked) env();
}
}
static uint64_t g_table[(sizeof(BeesHashTable) + 7) / 8];
static BeesHashTable &table() { return *reinterpret_cast<BeesHashTable *>(g_table); }
#include "fdmodel.h"
static void setup()
{
#ifdef VC_NATIVE
	g_extents = vc_nd_range(1, 4, "extents");
#else
	g_extents = vc_nd_range(1, EXT, "extents");
#endif
	g_ext = vc_nd_range(0, g_extents - 1, "extent"); g_first = g_ext * 8192;
	g_k = vc_nd_range(0, g_extents * 8192 - 1, "cell");
	g_locked = g_reads = g_readok = g_counted = g_stored = g_table_dirty = 0; g_cidx = ~0ULL; g_dup = vc_nd_bool("dup");
	g_writes = g_flushing = g_copied = g_may_env = 0; g_mem = 1; g_disk = vc_nd_range(0, 1, "disk"); g_copy = 0;
	BeesHashTable &t = table();
	t.m_byte_ptr = reinterpret_cast<uint8_t *>(g_tab); t.m_size = g_extents * BLOCK_SIZE_HASHTAB_EXTENT; t.m_byte_ptr_end = t.m_byte_ptr + t.m_size;
	t.m_buckets = t.m_size / BLOCK_SIZE_HASHTAB_BUCKET; t.m_extents = g_extents; t.m_prefetch_running = false; t.m_dirty = false;
	new (&meta()) BeesHashTable::ExtentMetaData();
	*reinterpret_cast<std::mutex **>(&meta().m_mutex_ptr) = &g_mx;
	fd_model(&t.m_fd, 7);
	meta().m_dirty = vc_nd_bool("dirty"); meta().m_missing = vc_nd_bool("missing");
}

VC_HARNESS(h_load)
{
	setup();
	const bool missing = meta().m_missing, dirty = meta().m_dirty, mine = g_k >= g_first && g_k < g_first + 8192;
	g_ov = g_v = C2 { vc_nd<uint64_t>("h0"), vc_nd<uint64_t>("a0") };
#ifdef VC_NATIVE
	memset(g_tab, 0, sizeof(g_tab)); g_tab[g_k] = g_v;
#endif
	bool t = false; try { table().fetch_missing_extent_by_index(g_ext); } catch (...) { t = true; }
	vc_assert(!t, "C03.load-total: loading goes on after a read error");
	vc_assert(g_reads == missing && !meta().m_missing, "C03.load-once: an extent is read from disk exactly if it was not loaded yet");
	vc_assert(!g_locked, "C03.load-unlock: the lock is released");
	vc_assert(!dirty || meta().m_dirty, "C03.load-dirty: loading does not forget pending changes");
	const C2 now = cell(g_k);
#ifdef VC_NATIVE
	if (missing && mine) {
		bool twin = false;
		// duplicates by what was loaded: cells are processed in place, so only cells with clear bit count
		const C2 want = { g_ov.h, g_ov.a & ~uint64_t(BeesAddress::c_toxic_mask) };
		if (toxic(g_ov.a)) vc_assert(eq(now, want) || eq(now, C2 { 0, 0 }), "C03.load-clean: a toxic mark is removed, anything else is kept as loaded");
		else vc_assert(eq(now, g_ov), "C03.load-clean: a toxic mark is removed, anything else is kept as loaded");
		(void)twin;
	} else vc_assert(eq(now, g_ov), "C03.load-others: other extents are left alone");
#else
	if (missing && mine) vc_assert(eq(now, cleaned(g_ov, g_dup)), "C03.load-clean: a toxic mark is removed, anything else is kept as loaded");
	else vc_assert(eq(now, g_ov), "C03.load-others: other extents are left alone");
#endif
	if (!missing) vc_cover("loaded before"); else if (g_readok) vc_cover("read"); else vc_cover("read failed");
}
// any extent, with other threads changing it whenever it is not locked
VC_HARNESS(h_flush)
{
	setup(); g_may_env = 1;
	// invariant of the table: memory and disk differ only if the extent is marked
	if (!meta().m_dirty) g_disk = g_mem;
	bool t = false, ok = false; try { ok = table().flush_dirty_extent(g_ext); } catch (...) { t = true; }
	vc_assert(!t, "C04.flush-total: writing goes on after an error");
	vc_assert(!g_locked, "C04.flush-unlock: the lock is released");
	vc_assert(meta().m_dirty || g_disk == g_mem, "C04.flush-keeps: an extent whose content is not on disk stays marked for writing");
	vc_assert(!ok || g_writes == 1, "C04.flush-reports: success means that the extent was written");
	if (ok && meta().m_dirty) vc_cover("changed meanwhile"); else if (ok) vc_cover("flushed"); else vc_cover("failed");
}
VC_HARNESS(h_mark)
{
	setup(); g_locked = 1; g_dlocked = g_notified = 0; g_dm = &table().m_dirty_mutex; g_dcv = &table().m_dirty_condvar;
	const bool awake = table().m_dirty = vc_nd_bool("told before");
	table().set_extent_dirty_locked(g_ext);
	vc_assert(meta().m_dirty, "C04.mark: a changed extent is marked");
	vc_assert(table().m_dirty, "C04.mark-table: the writer is told that something changed");
	vc_assert(g_notified || awake, "C04.mark-wakes: the writer is woken up if it may be asleep");
	vc_assert(!g_dlocked && g_locked == 1, "C04.mark-unlock: the writer's lock is released");
	if (awake) vc_cover("marked again"); else vc_cover("marked");
}
