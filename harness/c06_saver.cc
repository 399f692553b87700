// Contract of the thread that saves the positions: it saves before every sleep and once more after it was asked to stop.
#include "open.h"
#include "src/bees-roots.cc"
#include "lib/error.cc"
using namespace crucible;
extern "C" {
alignas(16) uint64_t g_r[(sizeof(BeesRoots) + 7) / 8];
static BeesRoots &roots() { return *reinterpret_cast<BeesRoots *>(g_r); }
uint64_t g_stop, g_locked, g_fresh, g_final, g_slept, g_steps, g_window, g_woken, g_joined1, g_joined2;
static void env() { if (vc_nd_bool("stop")) { g_stop = 1; roots().m_stop_requested = true; } if (++g_steps > 50 && !vc_symbolic()) { g_stop = 1; roots().m_stop_requested = true; } }
#ifdef STOPPER
int vcx_pthread_mutex_lock(void *m) { if (m == &roots().m_stop_mutex) ++g_locked; return 0; }
int vcx_pthread_mutex_unlock(void *m) { if (m == &roots().m_stop_mutex) { --g_locked; if (roots().m_stop_requested) g_window = 1; } return 0; }
#else
int vcx_pthread_mutex_lock(void *m) { if (m == &roots().m_stop_mutex) { env(); ++g_locked; } return 0; }
int vcx_pthread_mutex_unlock(void *m) { if (m == &roots().m_stop_mutex) --g_locked; return 0; }
#endif
__attribute__((used)) void h_save(BeesRoots *)
{
	g_fresh = 1; g_final = g_stop;
	env();
	if (vc_nd_bool("save fails")) throw std::runtime_error("save");
}
__attribute__((used)) int h_wait_for(void *, void *, void *)
{
	vc_assert(g_locked == 1, "C06.saver-lock: the saver goes to sleep with its lock");
	vc_assert(g_fresh, "C06.saver-save: the positions are saved before every sleep");
	vc_assert(!g_stop, "C06.saver-stop: the saver does not sleep after it was asked to stop");
	g_fresh = 0; g_slept = 1; env();
	return 0;
}
__attribute__((used)) void h_notify(void *c) { if (c == &roots().m_stop_condvar && roots().m_stop_requested && (g_locked || g_window)) g_woken = 1; }
__attribute__((used)) void h_join(BeesThread *t) { vc_assert(!g_locked, "C06.join-unlocked"); if (t == &roots().m_writeback_thread) g_joined1 = 1; if (t == &roots().m_crawl_thread) g_joined2 = 1; }
bool inv_saver() { return !g_locked && bool(g_stop) == roots().m_stop_requested; }
void hav() { roots().m_stop_requested = vc_nd_bool("s"); }
}
#ifndef STOPPER
VC_HARNESS(h_saver)
{
	g_locked = g_fresh = g_final = g_slept = g_steps = 0; g_stop = vc_nd_bool("already"); roots().m_stop_requested = g_stop;
	roots().writeback_thread();
	vc_assert(g_stop, "C06.saver-runs: the saver keeps saving until it is asked to stop");
	vc_assert(g_final, "C06.saver-final: the positions are saved once more after a stop was requested");
	vc_assert(!g_locked, "C06.saver-unlock");
	vc_cover("ended");
}
#else
VC_HARNESS(h_saver_stop)
{
	g_locked = g_window = g_woken = g_joined1 = g_joined2 = 0; roots().m_stop_requested = vc_nd_bool("already");
	roots().stop_request();
	vc_assert(roots().m_stop_requested && g_woken, "C06.saver-wakes: a stop request wakes the saver, whenever it went to sleep");
	vc_assert(!g_locked, "C06.saver-unlock");
	roots().stop_wait();
	vc_assert(g_joined1 && g_joined2, "C06.saver-joined: the last save is waited for");
}
#endif
