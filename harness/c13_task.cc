// Contracts of task scheduling: a task that is asked to run runs afterwards, never twice at once, and no queue loses a task.
#include "open.h"
#include "lib/task.cc"
#include "lib/error.cc"
using namespace crucible;
typedef std::list<TaskStatePtr> List;
extern "C" {
alignas(16) void *g_a[(sizeof(TaskState) + 7) / 8];
alignas(16) uint64_t g_b[(sizeof(TaskState) + 7) / 8], g_r[(sizeof(TaskState) + 7) / 8], g_m[(sizeof(TaskMasterState) + 7) / 8], g_c[(sizeof(TaskConsumer) + 7) / 8], g_excl[(sizeof(Exclusion) + 7) / 8];
void *g_tl[2], *g_tlc[2];
static TaskState &A() { return *reinterpret_cast<TaskState *>(g_a); }
static TaskState &B() { return *reinterpret_cast<TaskState *>(g_b); }
static TaskState &R() { return *reinterpret_cast<TaskState *>(g_r); }
static TaskMasterState &M() { return *reinterpret_cast<TaskMasterState *>(g_m); }
static TaskConsumer &C() { return *reinterpret_cast<TaskConsumer *>(g_c); }
static TaskStatePtr &tl() { return *reinterpret_cast<TaskStatePtr *>(g_tl); }
static TaskConsumerPtr &tlc() { return *reinterpret_cast<TaskConsumerPtr *>(g_tlc); }
TaskState *g_w, *g_front;		// the task watched
uint64_t g_elsewhere, g_la, g_lb, g_lm, g_lr, g_body, g_threads, g_notified, g_was_running, g_bodies, g_cancelled, g_taken, g_execs, g_throw, g_waits, g_stole, g_cleared;
List *g_r_in, *g_from;		// list that holds the rescue task
// a list is its number of watched tasks, and whether it holds others
static uint64_t &w_of(const void *l) { return static_cast<uint64_t *>(const_cast<void *>(l))[0]; }
static uint64_t &o_of(const void *l) { return static_cast<uint64_t *>(const_cast<void *>(l))[1]; }
static void list_init(List *l, uint64_t w, uint64_t o) { w_of(l) = w; o_of(l) = o; }
static void guard(const List *l)
{
	vc_assert(!(l == &A().m_post_exec_queue && !g_la) && !(l == &B().m_post_exec_queue && !g_lb) && !((l == &M().m_queue || l == &M().m_idle_queue) && !g_lm), "C13.locked: a queue is used only under its lock");
}
static void add(List *l, const TaskState *t) { guard(l); if (t == g_w) ++w_of(l); else o_of(l) = 1; if (t == &R()) g_r_in = l; }
__attribute__((used)) void l_new(List *l) { list_init(l, 0, 0); }
__attribute__((used)) void l_new_list(List *l, const TaskStatePtr *p, uint64_t n, void *) { list_init(l, 0, 0); if (n > 0) add(l, p[0].get()); if (n > 1) add(l, p[1].get()); }
__attribute__((used)) void l_end(List *) { }
__attribute__((used)) void l_push(List *l, const TaskStatePtr *p) { add(l, p->get()); }
__attribute__((used)) bool l_empty(const List *l) { guard(l); return !w_of(l) && !o_of(l); }
__attribute__((used)) uint64_t l_size(const List *l) { guard(l); return w_of(l) + (o_of(l) ? vc_nd_range(1, 1000, "others") : 0); }
__attribute__((used)) void *l_iter(List *l) { return l; }
__attribute__((used)) void l_splice(List *l, void *, List *x) { guard(l); guard(x); w_of(l) += w_of(x); o_of(l) |= o_of(x); list_init(x, 0, 0); if (g_r_in == x) g_r_in = l; }
__attribute__((used)) void l_swap(List *l, List *x) { guard(l); guard(x); uint64_t w = w_of(l), o = o_of(l); list_init(l, w_of(x), o_of(x)); list_init(x, w, o); if (g_r_in == x) g_r_in = l; else if (g_r_in == l) g_r_in = x; }
__attribute__((used)) void l_sort(List *) { }
__attribute__((used)) void l_clear(List *l) { guard(l); list_init(l, 0, 0); ++g_cleared; }
static uint64_t *mutex_of(void *m) { return m == &A().m_mutex ? &g_la : m == &B().m_mutex ? &g_lb : m == &M().m_mutex ? &g_lm : &g_lr; }
int vcx_pthread_mutex_lock(void *m) { vc_assert(!*mutex_of(m), "C13.deadlock: no lock is taken twice"); ++*mutex_of(m); return 0; }
int vcx_pthread_mutex_unlock(void *m) { --*mutex_of(m); return 0; }
__attribute__((used)) void h_lock2(std::unique_lock<std::mutex> *a, std::unique_lock<std::mutex> *b) { a->lock(); b->lock(); }
__attribute__((used)) TaskStatePtr h_this(void *p) { return p == static_cast<std::enable_shared_from_this<TaskState> *>(&A()) ? TaskStatePtr(TaskStatePtr(), &A()) : TaskStatePtr(TaskStatePtr(), &B()); }
__attribute__((used)) TaskStatePtr *h_tl() { return &tl(); }
__attribute__((used)) TaskConsumerPtr *h_tlc() { return &tlc(); }
__attribute__((used)) void h_start(TaskMasterState *) { vc_assert(g_lm == 1, "C13.start-locked"); ++g_threads; }
__attribute__((used)) void h_notify(void *) { ++g_notified; }
__attribute__((used)) void h_setname(const std::string &) { }
__attribute__((used)) std::string h_getname() { return std::string(); }
__attribute__((used)) void h_clear_task(TaskState *t) { ++g_cleared; if (t == g_w) g_elsewhere = 0; }
__attribute__((used)) void h_clear_queue(List *l) { list_init(l, 0, 0); ++g_cleared; }
__attribute__((used)) TaskStatePtr h_rescue_task() { list_init(&R().m_post_exec_queue, 0, 0); R().m_run_now = R().m_is_running = R().m_run_again = false; return TaskStatePtr(TaskStatePtr(), &R()); }
// where the watched task waits; the rescue task counts if it waits itself
static uint64_t waiting()
{
	uint64_t n = w_of(&C().m_local_queue) + w_of(&M().m_queue) + w_of(&M().m_idle_queue);
	if (g_r_in == &C().m_local_queue || g_r_in == &M().m_queue) n += w_of(&R().m_post_exec_queue);
	return n;
}
static uint64_t queued() { return waiting() + w_of(&A().m_post_exec_queue) + w_of(&B().m_post_exec_queue) + g_elsewhere; }
// a task that was asked to run and has not begun is in a queue, or runs again when it ends
static bool promised(TaskState &t) { return (!t.m_run_now || queued() || (t.m_is_running && t.m_run_again)) && (!t.m_run_again || t.m_is_running); }
// other threads, while the task is not locked
static void env(TaskState &t)
{
	t.m_run_now = vc_nd_bool("run now"); t.m_run_again = vc_nd_bool("run again"); t.m_idle = vc_nd_bool("idle"); t.m_sort_queue = vc_nd_bool("sort");
	if (g_w != &t) { uint64_t more = vc_nd_small(0, 9, 1, "more"); w_of(&t.m_post_exec_queue) += more; }
	else { g_elsewhere = vc_nd_small(0, 9, 1, "queued elsewhere"); vc_assume(promised(t)); }
	if (vc_nd_bool("dependents")) o_of(&t.m_post_exec_queue) = 1;
}
__attribute__((used)) void h_body()
{
	++g_bodies;
	vc_assert(!g_la && A().m_is_running && tl().get() == &A(), "C13.exec: the task runs unlocked, marked as running");
	vc_assert(!A().m_run_now, "C13.again: a request made while the task runs is not taken for the one that started it");
	env(A());
	if (vc_nd_bool("task fails")) throw std::runtime_error("task");
}
}
static void task_init(TaskState &t, List *)
{
	uint64_t *title = reinterpret_cast<uint64_t *>(const_cast<std::string *>(&t.m_title)); title[0] = reinterpret_cast<uintptr_t>(title + 2); title[1] = 1; title[2] = 'x';
	t.m_run_now = vc_nd_bool("run now"); t.m_run_again = vc_nd_bool("run again"); t.m_is_running = vc_nd_bool("running"); t.m_idle = vc_nd_bool("idle"); t.m_sort_queue = vc_nd_bool("sort");
	list_init(&t.m_post_exec_queue, vc_nd_small(0, 1000, 1, "watched"), vc_nd_bool("others"));
}
static void init(bool with_consumer)
{
	g_la = g_lb = g_lm = g_lr = g_bodies = g_threads = g_notified = g_taken = g_execs = g_cleared = g_waits = 0; g_r_in = nullptr;
	g_w = vc_nd_bool("watch") ? &A() : &B();
	task_init(A(), nullptr); task_init(B(), nullptr);
	A().m_id = 1; B().m_id = vc_nd_bool("first") ? 0 : 2;
	list_init(&R().m_post_exec_queue, 0, 0);
	list_init(&C().m_local_queue, vc_nd_small(0, 1000, 1, "local"), vc_nd_bool("others")); list_init(&M().m_queue, vc_nd_small(0, 1000, 1, "global"), vc_nd_bool("others")); list_init(&M().m_idle_queue, vc_nd_small(0, 1000, 1, "idle"), vc_nd_bool("others"));
	M().m_cancelled = false; M().m_paused = vc_nd_bool("paused");
	new (&s_tms) std::shared_ptr<TaskMasterState>(std::shared_ptr<TaskMasterState>(), &M());
	new (&tl()) TaskStatePtr(); new (&tlc()) TaskConsumerPtr();
	if (with_consumer) new (&tlc()) TaskConsumerPtr(TaskConsumerPtr(), &C());
	g_elsewhere = vc_nd_small(0, 1000, 1, "elsewhere");
	vc_assume(promised(*g_w));
}
static bool unlocked() { return !g_la && !g_lb && !g_lm; }
VC_HARNESS(h_run)
{
	init(vc_nd_bool("consumer"));
	vc_assume(g_w == &A());
	const bool idle = vc_nd_bool("idle run"), running = A().m_is_running, had = A().m_run_now;
	const uint64_t q = queued(), gq = w_of(&M().m_queue), iq = w_of(&M().m_idle_queue);
	if (idle) A().idle(); else A().run();
	vc_assert(unlocked() && !g_cleared && A().m_run_now && promised(A()), "C13.run: a task that is asked to run will run");
	vc_assert(A().m_is_running == running && queued() == q + (!had && !running), "C13.once: a task is queued at most once, and not while it runs");
	vc_assert(A().m_idle == idle, "C13.idle: an idle task waits until there are no others");
	if (!had && !running) vc_assert(w_of(&M().m_queue) == gq + !idle && w_of(&M().m_idle_queue) == iq + idle && g_notified && g_threads, "C13.wake: a worker is woken for the task");
	vc_cover("done");
}
VC_HARNESS(h_append)
{
	init(vc_nd_bool("consumer"));
	const bool ins = vc_nd_bool("insert"), self = !ins && vc_nd_bool("self"), had = self ? A().m_run_now : B().m_run_now;
	TaskState &t = self ? A() : B();
	const uint64_t q = queued(), pa = w_of(&A().m_post_exec_queue);
	if (ins) A().insert(TaskStatePtr(TaskStatePtr(), &t)); else A().append(TaskStatePtr(TaskStatePtr(), &t));
	vc_assert(unlocked() && t.m_run_now && !t.m_idle, "C13.append: a task that is asked to run after another will run");
	vc_assert(queued() == q + (!had && g_w == &t), "C13.append-once: a task is queued at most once, and no other task is lost");
	vc_assert(w_of(&A().m_post_exec_queue) >= pa + (!had && g_w == &t), "C13.append-after: the task waits for the one it was appended to");
	if (g_w == &A()) vc_assert(promised(A()), "C13.append-keeps");
	if (g_w == &B()) vc_assert(promised(B()), "C13.append-keeps-it");
	vc_cover("done");
}
VC_HARNESS(h_exec)
{
	init(vc_nd_bool("consumer"));
	new (const_cast<std::function<void()> *>(&A().m_exec_fn)) std::function<void()>(h_body);
	tl() = TaskStatePtr(TaskStatePtr(), &B());
	const bool running = A().m_is_running;
	if (g_w == &A() && vc_nd_bool("taken")) { g_elsewhere = 0; }	// taken from a queue to be run
	if (g_w == &B()) g_stole = w_of(&A().m_post_exec_queue);
	const uint64_t others = waiting() + w_of(&B().m_post_exec_queue) + g_elsewhere;
	A().exec();
	vc_assert(unlocked() && tl().get() == &B(), "C13.exec-end: the task that ran before is current again");
	if (running) vc_assert(!g_bodies && A().m_is_running && A().m_run_again, "C13.not-twice: a task does not run in two threads at once, and runs again when it ends");
	else {
		vc_assert(g_bodies == 1 && !A().m_is_running, "C13.ran: the task runs once");
		vc_assert(!w_of(&A().m_post_exec_queue) && !o_of(&A().m_post_exec_queue), "C13.after: tasks that wait for a task can run when it ends");
		if (g_w == &B()) vc_assert(waiting() + w_of(&B().m_post_exec_queue) + g_elsewhere >= others + g_stole, "C13.after-keeps: no task that waits for another is lost");
		if (g_w == &A()) vc_assert(promised(A()), "C13.requeued: a request made while the task runs is not lost");
		if (g_r_in && w_of(&R().m_post_exec_queue)) vc_assert(g_r_in == &M().m_queue, "C13.rescue: tasks left behind run");
		vc_cover("ran");
	}
}
VC_HARNESS(h_rescue)
{
	const bool con = vc_nd_bool("consumer");
	init(con);
	alignas(8) uint64_t mem[3]; List &q = *reinterpret_cast<List *>(mem);
	list_init(&q, vc_nd_small(0, 1000, 1, "watched"), vc_nd_bool("others"));
	const uint64_t n = w_of(&q), all = waiting();
	const bool sort = vc_nd_bool("sort");
	TaskState::rescue_queue(q, sort);
	vc_assert(unlocked() && !w_of(&q) && waiting() == all + n, "C13.rescue-all: every task that waited is put where a worker takes it");
	if (!con && n) vc_assert(g_notified && g_threads && (!sort || g_r_in != &M().m_queue || R().m_sort_queue), "C13.rescue-wake: a worker is woken for them");
	vc_cover("done");
}
// ---- a worker
extern "C" {
uint64_t g_others, g_iter, g_max, g_pausedn, g_size, g_erased, g_detached, g_in, g_out, g_run_w;
void *g_node[4];			// list node: links, then the task
static TaskStatePtr &front() { return *reinterpret_cast<TaskStatePtr *>(g_node + 2); }
__attribute__((used)) void *k_begin(List *l)
{
	g_from = l;
	const bool w = w_of(l) && (!o_of(l) || vc_nd_bool("first is watched"));
	new (&front()) TaskStatePtr(TaskStatePtr(), w ? &A() : &B());
	return g_node;
}
__attribute__((used)) void k_pop(List *l)
{
	vc_assert(g_lm == 1, "C13.take-locked: tasks are taken under the lock");
	vc_assert(l != &M().m_idle_queue || (l_empty(&C().m_local_queue) && l_empty(&M().m_queue)), "C13.idle-last: idle tasks run only when no other task waits");
	vc_assert(w_of(l) || o_of(l), "C13.take-some: a task is taken only from a queue that has one");
	vc_assert(l == g_from && front(), "C13.take: the task taken is the one removed");
	if (front().get() == &A()) { --w_of(l); ++g_taken; } else o_of(l) = vc_nd_bool("more others");
	g_from = nullptr;
}
__attribute__((used)) void k_exec(TaskState *t)
{
	vc_assert(!g_lm && C().m_current_task.get() == t, "C13.work: a task runs unlocked and is the worker's current task");
	if (t == &A()) { g_taken = 0; g_execs = 1; }
	// others queue tasks meanwhile, and other workers take them
	M().m_paused = vc_nd_bool("paused");
	if (vc_nd_bool("other local")) o_of(&C().m_local_queue) = 1;
	if (vc_nd_bool("task fails")) throw std::runtime_error("task");
}
__attribute__((used)) void k_wait(void *, std::unique_lock<std::mutex> *)
{
	vc_assert(l_empty(&C().m_local_queue) && l_empty(&M().m_queue) && l_empty(&M().m_idle_queue), "C13.wait: a worker waits only if there is no task");
	M().m_paused = vc_nd_bool("paused"); o_of(&M().m_queue) = vc_nd_bool("others"); o_of(&M().m_idle_queue) = vc_nd_bool("others");
}
__attribute__((used)) uint64_t k_size(const void *) { return g_size; }
__attribute__((used)) uint64_t k_erase(void *, void *) { ++g_erased; return 1; }
__attribute__((used)) void k_detach(void *) { ++g_detached; }
__attribute__((used)) TaskConsumerPtr k_this(void *) { return TaskConsumerPtr(TaskConsumerPtr(), &C()); }
bool inv_work() { return g_lm == 1 && !g_taken && !C().m_current_task && g_execs <= 1 && w_of(&C().m_local_queue) <= 1000 && w_of(&M().m_queue) <= 1000 && w_of(&M().m_idle_queue) <= 1000 && (g_execs || waiting() >= g_in) && tlc().get() == &C() && !g_erased; }
void k_hav() { w_of(&C().m_local_queue) = vc_nd<uint64_t>("l"); w_of(&M().m_queue) = vc_nd<uint64_t>("q"); w_of(&M().m_idle_queue) = vc_nd<uint64_t>("i"); o_of(&C().m_local_queue) = vc_nd_bool("l"); o_of(&M().m_queue) = vc_nd_bool("q"); o_of(&M().m_idle_queue) = vc_nd_bool("i"); M().m_paused = vc_nd_bool("p"); front() = nullptr; }
}
VC_HARNESS(h_worker)
{
	init(false);
	g_w = &A();
	C().m_current_task = nullptr; g_size = vc_nd_small(0, 1000, 2, "threads"); M().m_thread_max = vc_nd_small(0, 1000, 2, "max threads");
	new (&C().m_master) std::shared_ptr<TaskMasterState>(std::shared_ptr<TaskMasterState>(), &M());
	g_erased = g_detached = 0; g_in = waiting();
	C().consumer_thread();
	vc_assert(!g_taken && !C().m_current_task && g_detached == 1 && !tlc(), "C13.taken-runs: every task a worker takes runs");
	vc_assert(g_execs || waiting() >= g_in, "C13.worker-keeps: a worker loses no task");
	vc_assert(!w_of(&C().m_local_queue) && !o_of(&C().m_local_queue), "C13.worker-end: a worker that ends leaves its tasks to others");
	vc_assert(g_erased == 1 && !g_lm, "C13.worker-gone");
	vc_cover("ended");
}
// ---- exclusion: at most one holder, and who has to wait runs when the holder ends
extern "C" {
void *g_holder[2], *g_asker[2], *g_new[2];	// the task that holds the lock, the one that asks, the copy made for the lock
uint64_t g_held, g_inserted, g_owner_set, g_copied, g_lx;
static Task &holder() { return *reinterpret_cast<Task *>(g_holder); }
static Task &asker() { return *reinterpret_cast<Task *>(g_asker); }
static Task &copy() { return *reinterpret_cast<Task *>(g_new); }
__attribute__((used)) std::shared_ptr<Task> x_lock(const void *) { vc_assert(g_lr == 1, "C13.excl-locked: the holder is looked up under the lock"); return g_held ? std::shared_ptr<Task>(std::shared_ptr<Task>(), &holder()) : std::shared_ptr<Task>(); }
__attribute__((used)) void *x_set(void *w, const std::shared_ptr<Task> *p) { vc_assert(g_lr == 1 && !g_held && p->get() == &copy(), "C13.excl-set: a lock that is held is not given to another task"); ++g_owner_set; return w; }
__attribute__((used)) std::shared_ptr<Task> x_copy(const Task *t) { vc_assert(t == &asker(), "C13.excl-owner"); ++g_copied; new (&copy()) Task(*t); return std::shared_ptr<Task>(std::shared_ptr<Task>(), &copy()); }
__attribute__((used)) void x_insert(const Task *t, const Task *n) { vc_assert(t == &holder() && n == &asker() && g_held, "C13.excl-wait: a task that has to wait runs after the holder"); ++g_inserted; }
}
VC_HARNESS(h_exclusion)
{
	init(false); g_inserted = g_owner_set = g_copied = 0; g_held = vc_nd_bool("held");
	const bool empty = vc_nd_bool("no task");
	new (&holder().m_task_state) TaskStatePtr(TaskStatePtr(), &B()); new (&asker().m_task_state) TaskStatePtr(TaskStatePtr(), empty ? nullptr : &A());
	Exclusion &x = *reinterpret_cast<Exclusion *>(g_excl);
	{
		ExclusionLock l = x.try_lock(asker());
		if (g_held) vc_assert(!l && !g_owner_set && g_inserted == !empty, "C13.excl-held: a lock that is held is not given out, and the task waits for the holder");
		else vc_assert(!!l && l.m_owner.get() == &copy() && g_owner_set == 1 && !g_inserted, "C13.excl-free: a free lock is given to the task");
	}
	vc_assert(!g_lr, "C13.excl-unlock");
	vc_cover("done");
}
