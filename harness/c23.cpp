// C23: a thread pool executes every task given to it exactly once, and its future tells the result.
#include "common.h"
#include <thread>
#include <future>
#include <stdexcept>
VT_MAIN
using namespace vt;
#define PLAIN __attribute__((no_sanitize("thread")))
static const int MAXT = 16;
static mc::Var runs[MAXT], running; static int tidOf[MAXT];
static void reset() { handoverStart(); for (int i = 0; i < MAXT; i++) { runs[i].v = 0; tidOf[i] = -1; } running.v = 0; }
static int main_tid() { return 0; }
static PLAIN int job_(int i);
static int job(int i) { int r = job_(i); give(i + 40); return r; }
// a task that needs what its giver wrote before, and whose future gives what it wrote
struct In { int i; explicit In(int x) : i(x) { give(x); } int operator()() const { taken(i); return job(i); } };
static bool out(std::future<int> &f, int i) { int r = f.get(); taken(i + 40); return r == 100 + i; }
static PLAIN int job_(int i) { MC_ASSERT(runs[i].add(1) == 1, "task %d executes a second time", i); tidOf[i] = mc_tid(); running.add(1); mc_point(); running.add(-1); return 100 + i; }
static PLAIN void check(int n) { MC_ASSERT(running.peek() == 0, "a task is still executing"); for (int i = 0; i < n; i++) { MC_ASSERT(runs[i].peek() == 1, "task %d executed %ld times", i, runs[i].peek()); MC_ASSERT(tidOf[i] != main_tid(), "task %d executed by the caller", i); } }
static const CIndex WHERE[] = { CGRAPH_DEFAULT_TASK_STRATEGY, 0, 1, CGRAPH_POOL_TASK_STRATEGY, CGRAPH_TRIGGER_ALL_THREAD_STRATEGY, 7, CGRAPH_LONG_TIME_TASK_STRATEGY };
struct T { int v; explicit T(int x) : v(x) {} };
static void done(UThreadPool &p, int n) { check(n); p.destroy(); MC_ASSERT(mc_live_threads() == 0, "threads left after destroy()"); }
// a few tasks given to any place of an idle or a busy pool, one after the other or all at once
static void place(int K, int places, int threads, int secondary, int mode) {
    reset(); auto c = cfg(threads, secondary, mode & 1); c.batch_task_enable_ = mode >> 1 & 1; c.deliver_running_primary_thread_enable_ = mode >> 2 & 1; UThreadPool p(true, c); bool each = mc_choose(2, "one by one"); int w[4], pl = 0; for (int i = 0; i < K; i++) { w[i] = mc_choose(places, "where"); pl |= w[i] == 6; } mc_explore(1); long t0 = mc_now_ms();
    std::future<int> f[4]; for (int i = 0; i < K; i++) { f[i] = p.commit(In(i), WHERE[w[i]]); if (each) MC_ASSERT(out(f[i], i), "wrong result"); } if (!each) for (int i = 0; i < K; i++) MC_ASSERT(out(f[i], i), "wrong result");
    mc_explore(0); long t = mc_now_ms() - t0; MC_ASSERT(t == 0 || pl, "short tasks wait %ld ms although the pool is idle", t); done(p, K);
}
MC_SCENARIO(places_1, 3, 3, 5, 5) { place(2, 6, 1, 0, 0); }
MC_SCENARIO(places_2, 2, 2, 3, 3) { place(2, 7, 2, 0, 0); }
MC_SCENARIO(places_2_busy, 1, 1, 2, 2) { place(3, 4, 2, 0, 1); }
MC_SCENARIO(places_3, -1, -1, 1, 1) { place(3, 7, 3, 0, 0); }
MC_SCENARIO(places_secondary, 1, 1, 2, 2) { place(2, 7, 1, 1, 0); }
MC_SCENARIO(places_only_secondary, 1, 1, 3, 3) { place(3, 7, 0, 2, 0); }
MC_SCENARIO(places_batch, 1, 1, 2, 2) { place(3, 4, 2, 0, 2); }
MC_SCENARIO(places_deliver, 1, 1, 2, 2) { place(3, 4, 2, 1, 4 + 2 * mc_choose(2, "batch")); }
// several threads give tasks at once
static void committers(int C, int per, int threads, int secondary) {
    reset(); auto c = cfg(threads, secondary, mc_choose(2, "busy epoch")); c.batch_task_enable_ = mc_choose(2, "batch"); UThreadPool p(true, c); int w = mc_choose(4, "where"); static const CIndex W4[] = { CGRAPH_DEFAULT_TASK_STRATEGY, 0, CGRAPH_POOL_TASK_STRATEGY, 1 }; mc_explore(1); long t0 = mc_now_ms(); std::vector<std::thread> t;
    for (int k = 0; k < C; k++) t.emplace_back([&, k] { std::future<int> f[4]; for (int j = 0; j < per; j++) { int i = k * per + j; f[j] = p.commit(In(i), W4[w]); } for (int j = 0; j < per; j++) MC_ASSERT(out(f[j], k * per + j), "wrong result"); }); for (auto &x : t) x.join();
    mc_explore(0); MC_ASSERT(mc_now_ms() == (uint64_t)t0, "short tasks wait %ld ms", (long)(mc_now_ms() - t0)); check(C * per); p.destroy();
}
MC_SCENARIO(committers_2, 2, 2, 3, 3) { committers(2, 1, 2, 0); }
MC_SCENARIO(committers_1_thread, 2, 2, 3, 3) { committers(2, 1, 1, 0); }
MC_SCENARIO(committers_3, 1, 1, 1, 1) { committers(3, 1, 1, 1); }
// execute(): no future, the destructor of the pool is not needed
MC_SCENARIO(executed, 2, 2, 3, 3) { reset(); UThreadPool p(true, cfg(2)); mc::Var left(3); std::mutex m; std::condition_variable cv; mc_explore(1); for (int i = 0; i < 3; i++) p.execute([&, i] { job(i); std::lock_guard<std::mutex> lk(m); if (left.add(-1) == 0) cv.notify_one(); }, WHERE[mc_choose(4, "where")]); { std::unique_lock<std::mutex> lk(m); cv.wait(lk, [&] { return left.get() == 0; }); } mc_explore(0); done(p, 3); }
// tasks that give tasks and wait for them
MC_SCENARIO(nested, 2, 2, 3, 3) {
    reset(); UThreadPool p(true, cfg(2, 0, mc_choose(2, "busy epoch"))); int w = mc_choose(4, "where"), n = 1 + mc_choose(2, "children"), wait = mc_choose(2, "wait"); mc_explore(1); long t0 = mc_now_ms(); std::future<int> ch[2];
    auto f = p.commit([&] { int s = job(0); for (int i = 1; i <= n; i++) ch[i - 1] = p.commit(In(i), i == 1 ? WHERE[w] : -1); if (wait) for (int i = 1; i <= n; i++) s += ch[i - 1].get(); return s; });
    int s = f.get(); if (!wait) for (int i = 1; i <= n; i++) s += ch[i - 1].get(); MC_ASSERT(s == (n == 1 ? 201 : 303), "wrong result"); mc_explore(0); MC_ASSERT(mc_now_ms() - t0 <= 2000, "nested tasks take %ld ms", (long)(mc_now_ms() - t0)); done(p, n + 1);
}
// two tasks for the same thread where the first needs the second: the other thread takes it
MC_SCENARIO(steal, 3, 3, 4, 4) { reset(); auto c = cfg(2, 0, 1); c.batch_task_enable_ = false; UThreadPool p(true, c); int t = mc_choose(2, "thread"); std::promise<void> go; auto g = go.get_future(); mc_explore(1); auto a = p.commit([&] { g.get(); return job(0); }, t), b = p.commit([&] { job(1); go.set_value(); return 7; }, t); MC_ASSERT(a.get() == 100 && b.get() == 7, "wrong result"); mc_explore(0); done(p, 2); }
// tasks queued at a busy thread, in batches: the others take them, each once
static void stolen(int threads, int n) {
    reset(); auto c = cfg(threads, 0, mc_choose(2, "busy epoch")); c.batch_task_enable_ = mc_choose(2, "batch"); c.max_steal_batch_size_ = c.max_local_batch_size_ = mc_choose(2, "batch size") ? 8 : 1; c.max_task_steal_range_ = threads - 1; UThreadPool p(true, c); int t = mc_choose(threads, "thread"); std::promise<void> up, go; auto g = go.get_future(); mc_explore(1);
    auto a = p.commit([&] { up.set_value(); g.get(); return job(0); }, t); up.get_future().get(); std::future<int> f[4];
    for (int i = 1; i <= n; i++) f[i - 1] = p.commit(In(i), t); for (int i = 1; i <= n; i++) MC_ASSERT(out(f[i - 1], i), "wrong result"); go.set_value(); MC_ASSERT(a.get() == 100, "wrong result"); mc_explore(0); done(p, n + 1);
}
MC_SCENARIO(stolen_3, 1, 1, 1, 1) { stolen(3, 3); }
MC_SCENARIO(stolen_2, 1, 1, 2, 2) { stolen(2, 3); }
// a task that throws: its future rethrows, everybody else is unaffected
MC_SCENARIO(throwing, 1, 1, 2, 2) {
    reset(); auto c = cfg(mc_choose(2, "threads") + 1); c.batch_task_enable_ = mc_choose(2, "batch"); UThreadPool p(true, c); int bad = mc_choose(3, "which"), w = mc_choose(4, "where"); mc_explore(1); std::future<int> f[3]; for (int i = 0; i < 3; i++) f[i] = p.commit([i, bad] { int r = job(i); if (i == bad) throw std::runtime_error("t"); return r; }, WHERE[w]);
    for (int i = 0; i < 3; i++) { bool thr = false; try { MC_ASSERT(out(f[i], i), "wrong result"); } catch (const std::runtime_error &) { thr = true; } MC_ASSERT(thr == (i == bad), "exception of task %d", i); } mc_explore(0); MC_ASSERT(p.commit([] { return 5; }).get() == 5, "the pool is dead"); done(p, 3);
}
// one batch for a certain thread: first call locks, last one releases
MC_SCENARIO(to_thread, 2, 2, 4, 4) {
    reset(); int n = 2 + mc_choose(2, "tasks"), tid = mc_choose(3, "thread"), sleeping = mc_choose(2, "sleeping"); auto c = cfg(2, 0, 1); UThreadPool p(true, c); if (sleeping) std::this_thread::sleep_for(std::chrono::milliseconds(1)); mc_explore(1); long t0 = mc_now_ms(); std::future<int> f[3];
    for (int i = 0; i < n; i++) f[i] = p.commitWithTid(In(i), tid, i == 0 || i == n - 1, i == 0); for (int i = 0; i < n; i++) MC_ASSERT(out(f[i], i), "wrong result"); mc_explore(0); MC_ASSERT(mc_now_ms() == (uint64_t)t0, "short tasks wait"); done(p, n);
}
// which thread am I?
MC_SCENARIO(indices, 1, 1, 2, 2) {
    reset(); UThreadPool p(true, cfg(2, 1)); auto me = [&] { return p.getThreadIndex(std::hash<std::thread::id>{}(std::this_thread::get_id())); }; mc_explore(1); MC_ASSERT(me() == CGRAPH_MAIN_THREAD_ID, "index of the main thread"); int w = mc_choose(7, "where"); int t = -7; int i = p.commit([&] { t = mc_tid(); return me(); }, WHERE[w]).get(); MC_ASSERT(i == 0 || i == 1 || i == CGRAPH_SECONDARY_THREAD_COMMON_ID, "index %d", i); if (w == 6) MC_ASSERT(i == CGRAPH_SECONDARY_THREAD_COMMON_ID, "index %d of a secondary thread", i); int o = 0; std::thread x([&] { o = me(); }); x.join(); MC_ASSERT(o == CGRAPH_SECONDARY_THREAD_COMMON_ID, "index of a foreign thread"); mc_explore(0); p.destroy();
}
// results of any type, move-only ones too; a future may be dropped
MC_SCENARIO(types, 1, 1, 2, 2) { reset(); UThreadPool p(true, cfg(1)); mc_explore(1); auto a = p.commit([] { return std::unique_ptr<int>(new int(3)); }); auto b = p.commit([] { job(0); }); { auto d = p.commit([] { return job(1); }); } auto e = p.commit([] { return std::string(40, 'x'); }); MC_ASSERT(*a.get() == 3, "moved result"); b.get(); MC_ASSERT(e.get() == std::string(40, 'x'), "string"); mc_explore(0); done(p, 2); }
// in its next life, with fewer threads of its own, a pool does not take a secondary or foreign thread for one of the earlier life
MC_SCENARIO(index_second_life, 0, 0, 1, 1) {
    reset(); UThreadPool p(false); auto me = [&] { return p.getThreadIndex(std::hash<std::thread::id>{}(std::this_thread::get_id())); }; int a = 1 + mc_choose(3, "first life"), b = mc_choose(2, "second life"), sec = 1 + mc_choose(2, "secondary"); ok(p.setConfig(cfg(a)), "config"); ok(p.init(), "init"); mc_explore(1); for (int i = 0; i < a; i++) MC_ASSERT(p.commit([&] { return me(); }, CGRAPH_POOL_TASK_STRATEGY).get() < a, "index"); ok(p.destroy(), "destroy");
    ok(p.setConfig(cfg(b, sec)), "config"); ok(p.init(), "init"); for (int i = 0; i < 3; i++) { int x = p.commit([&] { return me(); }, CGRAPH_LONG_TIME_TASK_STRATEGY).get(); MC_ASSERT(x == CGRAPH_SECONDARY_THREAD_COMMON_ID, "a task on a secondary thread sees the index %d", x); } int y = 0; std::thread([&] { y = me(); }).join(); MC_ASSERT(y == CGRAPH_SECONDARY_THREAD_COMMON_ID, "a foreign thread sees the index %d", y); MC_ASSERT(me() == CGRAPH_MAIN_THREAD_ID, "the main thread sees the index %d", me()); mc_explore(0); ok(p.destroy(), "destroy"); std::vector<std::thread> many; int ys[4]; std::promise<void> go; auto g = go.get_future().share(); for (int i = 0; i < 4; i++) many.emplace_back([&ys, &me, g, i] { g.get(); ys[i] = me(); }); go.set_value(); for (auto &t : many) t.join(); for (int y : ys) MC_ASSERT(y == CGRAPH_SECONDARY_THREAD_COMMON_ID, "after destroy() a foreign thread sees the index %d", y);
}
