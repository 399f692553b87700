// Contract of stopping: positions are saved before any work is abandoned, and the hash table is flushed before the end.
#include "open.h"
#include "src/bees-context.cc"
#include "lib/error.cc"
using namespace crucible;
extern "C" {
alignas(16) uint64_t g_ctx[(sizeof(BeesContext) + 7) / 8], g_roots[(sizeof(BeesRoots) + 7) / 8], g_ht[(sizeof(BeesHashTable) + 7) / 8], g_th[(sizeof(BeesThread) + 7) / 8];
static BeesContext &ctx() { return *reinterpret_cast<BeesContext *>(g_ctx); }
uint64_t g_rr, g_rw, g_hr, g_hw, g_paused, g_joined, g_exit, g_has_roots, g_has_ht, g_locked;
int vcx_pthread_mutex_lock(void *m) { if (m == &ctx().m_stop_mutex) { vc_assert(!g_locked, "C06.stop-relock"); g_locked = 1; } return 0; }
int vcx_pthread_mutex_unlock(void *m) { if (m == &ctx().m_stop_mutex) g_locked = 0; return 0; }
__attribute__((used)) void h_pause(bool p) { if (p) g_paused = 1; }
__attribute__((used)) void h_rr(BeesRoots *) { g_rr = 1; }
__attribute__((used)) void h_rw(BeesRoots *)
{
	vc_assert(g_paused, "C06.stop-paused: no new work is started while the positions are saved for the last time");
	vc_assert(!ctx().m_stop_requested, "C06.stop-early: no work is abandoned before the positions are saved for the last time");
	vc_assert(g_rr && !g_locked, "C06.stop-asked: the savers were asked to stop before they are waited for");
	g_rw = 1;
}
__attribute__((used)) void h_hr(BeesHashTable *) { g_hr = 1; }
__attribute__((used)) void h_hw(BeesHashTable *) { vc_assert(g_hr && !g_locked, "C06.stop-asked: the savers were asked to stop before they are waited for"); g_hw = 1; }
__attribute__((used)) void h_join(BeesThread *) { vc_assert(ctx().m_stop_status && !g_locked, "C06.stop-status"); g_joined = 1; }
__attribute__((used)) void h_notify(void *) { }
void vcx__exit(int)
{
	g_exit = 1;
	vc_assert(!g_has_roots || g_rw, "C06.stop-positions: the program ends only after the positions were saved");
	vc_assert(!g_has_ht || g_hw, "C06.stop-table: the program ends only after the hash table was flushed");
	vc_cover("end"); vc_assume(false);
}
}
VC_HARNESS(h_stop)
{
	g_rr = g_rw = g_hr = g_hw = g_paused = g_joined = g_exit = g_locked = 0; g_has_roots = vc_nd_bool("roots"); g_has_ht = vc_nd_bool("table");
	ctx().m_stop_requested = false; ctx().m_stop_status = false;
	auto put = [](auto &p, void *v) { typedef typename std::remove_reference<decltype(p)>::type P; new (&p) P(P(), static_cast<typename P::element_type *>(v)); };
	put(ctx().m_roots, g_has_roots ? g_roots : 0); put(ctx().m_hash_table, g_has_ht ? g_ht : 0); put(ctx().m_status_thread, g_th);
	try { ctx().stop(); } catch (...) { }

}
