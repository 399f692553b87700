// Contracts of the hash table writer: it visits every extent, never sleeps on a change, and writes once more on exit.
#include "open.h"
#include "src/bees-hash.cc"
#include "lib/error.cc"
using namespace crucible;
extern "C" {
uint64_t g_ext, g_extents, g_locked, g_flushed, g_dirty, g_pending, g_flag, g_stop, g_ended, g_flushes, g_slept, g_steps, g_other_locked;
alignas(8) char g_meta[sizeof(BeesHashTable::ExtentMetaData)], g_meta2[sizeof(BeesHashTable::ExtentMetaData)];
std::mutex g_mx, g_mx2;
static BeesHashTable::ExtentMetaData &meta() { return *reinterpret_cast<BeesHashTable::ExtentMetaData *>(g_meta); }
static BeesHashTable::ExtentMetaData &meta2() { return *reinterpret_cast<BeesHashTable::ExtentMetaData *>(g_meta2); }
alignas(16) uint64_t g_table[(sizeof(BeesHashTable) + 7) / 8];
static BeesHashTable &table() { return *reinterpret_cast<BeesHashTable *>(g_table); }
__attribute__((used)) BeesHashTable::ExtentMetaData *h_at(void *, size_t i)
{
	if (i >= g_extents) throw std::out_of_range("vector::at");
	if (i == g_ext) return &meta();
	meta2().m_dirty = vc_nd_bool("other dirty");
	return &meta2();
}
__attribute__((used)) bool h_flush_one(BeesHashTable *, uint64_t i)
{
	vc_assert(i < g_extents && !g_locked && !g_other_locked, "C04.visit: extents of the table are written without holding their lock");
	if (i == g_ext) { ++g_flushed; const bool ok = vc_nd_bool("written"); meta().m_dirty = !ok; return ok; }
	return vc_nd_bool("other written");
}
void hav_visit() { meta().m_dirty = vc_nd_bool("m"); meta2().m_dirty = vc_nd_bool("m2"); }
bool inv_visit(uint64_t i) { return i <= g_extents && g_flushed == (i > g_ext && g_dirty) && !g_locked && !g_other_locked && meta().m_dirty == (i > g_ext && g_dirty ? meta().m_dirty : bool(g_dirty)); }
__attribute__((used)) double h_sleep(void *, double) { return vc_nd_double("sleep"); }
__attribute__((used)) int h_wait_for(void *, void *, void *) { return 0; }
#ifdef STOPPER
uint64_t g_window, g_woken, g_woken2;
int vcx_pthread_mutex_lock(void *m) { if (m == &table().m_dirty_mutex) ++g_locked; if (m == &table().m_stop_mutex) ++g_other_locked; return 0; }
int vcx_pthread_mutex_unlock(void *m) { if (m == &table().m_dirty_mutex) { --g_locked; if (table().m_stop_requested) g_window |= 1; } if (m == &table().m_stop_mutex) { --g_other_locked; if (table().m_stop_requested) g_window |= 2; } return 0; }
// a sleeper checks the flag and goes to sleep under its mutex: it is woken for sure only if the mutex was held after the flag was set
__attribute__((used)) void h_notify(void *c) { if (!table().m_stop_requested) return; if (c == &table().m_dirty_condvar && (g_locked || (g_window & 1))) g_woken = 1; if (c == &table().m_stop_condvar && (g_other_locked || (g_window & 2))) g_woken2 = 1; }
#elif !defined(WRITER)
int vcx_pthread_mutex_lock(void *m) { if (m == &g_mx) ++g_locked; else if (m == &g_mx2) ++g_other_locked; return 0; }
int vcx_pthread_mutex_unlock(void *m) { if (m == &g_mx) --g_locked; else if (m == &g_mx2) --g_other_locked; return 0; }
#else
// other threads: change extents (set_extent_dirty_locked), ask to stop
static void env(bool may_change) { if (may_change && vc_nd_bool("changed")) { g_pending = 1; table().m_dirty = true; } if (vc_nd_bool("stop")) { g_stop = 1; table().m_stop_requested = true; } if (++g_steps > 200 && !vc_symbolic()) { g_stop = 1; table().m_stop_requested = true; } }
int vcx_pthread_mutex_lock(void *m) { if (m == &table().m_dirty_mutex) { env(true); ++g_locked; } return 0; }
int vcx_pthread_mutex_unlock(void *m) { if (m == &table().m_dirty_mutex) --g_locked; return 0; }
#endif
__attribute__((used)) size_t h_flush_all(BeesHashTable *, bool)
{
	vc_assert(!g_locked, "C04.writer-unlocked: writing happens without holding the writer's lock");
	g_pending = 0; g_ended = g_stop; ++g_flushes;
#ifdef WRITER
	env(true);
#endif
	return vc_nd<size_t>("n");
}
__attribute__((used)) void h_wait(void *, void *)
{
	vc_assert(g_locked == 1, "C04.writer-lock: the writer sleeps with its lock");
	vc_assert(!g_pending, "C04.writer-sleep: the writer does not sleep while a change made since its last pass is unwritten");
	vc_assert(!g_stop, "C04.writer-stop: the writer does not sleep after it was asked to stop");
	g_slept = 1;
#ifdef WRITER
	env(true);
#endif
}
void hav_writer() { table().m_dirty = vc_nd_bool("d"); table().m_stop_requested = vc_nd_bool("s"); }
bool inv_writer() { return !g_locked && bool(g_stop) == table().m_stop_requested; }
}
#ifdef STOPPER
VC_HARNESS(h_stop)
{
	BeesHashTable &t = table();
	g_locked = g_other_locked = g_window = g_woken = g_woken2 = 0; t.m_stop_requested = vc_nd_bool("already"); t.m_dirty = vc_nd_bool("dirty");
	t.stop_request();
	vc_assert(t.m_stop_requested, "C04.stop-flag: a stop request is recorded");
	vc_assert(g_woken && g_woken2, "C04.stop-wakes: a stop request wakes the writer and the prefetcher, whenever they went to sleep");
	vc_assert(!g_locked && !g_other_locked, "C04.stop-unlock: no lock is kept");
	vc_cover("stopped");
}
#elif !defined(WRITER)
VC_HARNESS(h_flush_pass)
{
	BeesHashTable &t = table();
	g_extents = vc_nd_range(1, vc_symbolic() ? 1 << 16 : 40, "extents"); g_ext = vc_nd_range(0, g_extents - 1, "extent");
	g_locked = g_other_locked = g_flushed = 0;
	t.m_extents = g_extents; t.m_buckets = g_extents * 32; t.m_stop_requested = vc_nd_bool("stop");
	new (&meta()) BeesHashTable::ExtentMetaData(); new (&meta2()) BeesHashTable::ExtentMetaData();
	*reinterpret_cast<std::mutex **>(&meta().m_mutex_ptr) = &g_mx; *reinterpret_cast<std::mutex **>(&meta2().m_mutex_ptr) = &g_mx2;
	meta().m_dirty = vc_nd_bool("dirty"); g_dirty = meta().m_dirty;
	bool th = false; try { t.flush_dirty_extents(vc_nd_bool("slowly")); } catch (...) { th = true; }
	vc_assert(!th, "C04.pass-total: a pass over the table does not fail");
	vc_assert(g_flushed == g_dirty, "C04.pass-all: a pass writes every changed extent");
	vc_assert(!g_locked && !g_other_locked, "C04.pass-unlock: no lock is kept");
	if (g_dirty) vc_cover("dirty"); else vc_cover("clean");
}
#else
VC_HARNESS(h_writeback)
{
	BeesHashTable &t = table();
	g_locked = g_pending = g_stop = g_ended = g_flushes = g_slept = g_steps = 0;
	t.m_dirty = vc_nd_bool("dirty"); t.m_stop_requested = false;
	t.writeback_loop();
	vc_assert(g_stop && g_ended, "C04.writer-last: after a stop request the whole table is written once more");
	vc_assert(!g_locked, "C04.writer-unlock: no lock is kept");
	vc_cover("stopped");
}
#endif
