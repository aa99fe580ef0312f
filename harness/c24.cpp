// C24: the life of a thread pool: init, destroy, secondary threads, monitor.
#include "common.h"
#include <thread>
#include <future>
VT_MAIN
using namespace vt;
#define PLAIN __attribute__((no_sanitize("thread")))
static void nap(long ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }
static const int MAXT = 12;
static mc::Var begun[MAXT], ended[MAXT], off; static int freed;
static void reset() { for (int i = 0; i < MAXT; i++) begun[i].v = ended[i].v = 0; off.v = 0; freed = 0; }
struct Token { int *n; explicit Token(int *p) : n(p) {} PLAIN ~Token() { ++*n; } };
static PLAIN int job(int i, int ms = 0) { MC_ASSERT(!off.get(), "task %d begins although the pool is destroyed", i); MC_ASSERT(begun[i].add(1) == 1, "task %d executes a second time", i); mc_point(); if (ms) nap(ms); MC_ASSERT(!off.get(), "task %d still executes after destroy()", i); ended[i].add(1); return 100 + i; }
static const CIndex WHERE[] = { CGRAPH_DEFAULT_TASK_STRATEGY, 0, CGRAPH_POOL_TASK_STRATEGY, CGRAPH_LONG_TIME_TASK_STRATEGY, CGRAPH_TRIGGER_ALL_THREAD_STRATEGY };
static void gone() { MC_ASSERT(mc_live_threads() == 0, "%d threads left after destroy()", mc_live_threads()); }
// destroy() at any moment: what has begun is completed, the rest is dropped and its future says so; nothing of it appears in the next life
static void dropping(int K, int places, UThreadPoolConfig c, bool explicitDestroy, int lives = 2) {
    reset(); { UThreadPool p(true, c); std::future<int> f[4]; int w[4]; for (int i = 0; i < K; i++) w[i] = mc_choose(places, "where"); mc_explore(1);
        for (int i = 0; i < K; i++) f[i] = p.commit([i] { return job(i); }, WHERE[w[i]]); long t0 = mc_now_ms(); ok(p.destroy(), "destroy"); off.set(1); gone(); MC_ASSERT(mc_now_ms() - t0 < 1000, "destroy() took %ld ms", (long)(mc_now_ms() - t0)); MC_ASSERT(!p.isInit(), "still initialised");
        for (int i = 0; i < K; i++) { MC_ASSERT(f[i].wait_for(std::chrono::milliseconds(0)) == std::future_status::ready, "the future of task %d is not decided by destroy()", i); bool broken = false; try { MC_ASSERT(f[i].get() == 100 + i, "wrong result"); } catch (const std::future_error &) { broken = true; } MC_ASSERT(begun[i].peek() == ended[i].peek() && (begun[i].peek() == 1) == !broken, "task %d: begun %ld, ended %ld, future %s", i, begun[i].peek(), ended[i].peek(), broken ? "broken" : "has a value"); }
        mc_explore(0); ok(p.destroy(), "second destroy"); for (int l = 1; l < lives; l++) { ok(p.init(), "init again"); off.set(0); MC_ASSERT(p.isInit(), "not initialised"); for (int i = 0; i < 3; i++) MC_ASSERT(p.commit([i] { return job(6 + i); }, WHERE[i]).get() == 106 + i, "the pool does not work in its next life"); nap(3000); for (int i = 0; i < K; i++) MC_ASSERT(begun[i].peek() == ended[i].peek(), "task %d of the previous life was executed", i); if (explicitDestroy || l + 1 < lives) { ok(p.destroy(), "destroy"); gone(); } } }
    gone();
}
MC_SCENARIO(dropped_1, 2, 2, 4, 4) { dropping(2, 3, cfg(1, 0, mc_choose(2, "busy epoch")), true); }
MC_SCENARIO(dropped_2, 1, 1, 2, 2) { dropping(3, 3, cfg(2), false); }
MC_SCENARIO(dropped_secondary, 1, 1, 2, 2) { dropping(2, 5, cfg(1, 1), true); }
MC_SCENARIO(dropped_only_secondary, 1, 1, 3, 3) { auto c = cfg(0, 1); c.batch_task_enable_ = mc_choose(2, "batch"); reset(); { UThreadPool p(true, c); mc_explore(1); auto a = p.commit([] { return job(0); }), b = p.commit([] { return job(1); }, CGRAPH_LONG_TIME_TASK_STRATEGY); ok(p.destroy(), "destroy"); off.set(1); gone(); MC_ASSERT(a.wait_for(std::chrono::milliseconds(0)) == std::future_status::ready && b.wait_for(std::chrono::milliseconds(0)) == std::future_status::ready, "a future is not decided"); } gone(); }
MC_SCENARIO(dropped_batch, 1, 1, 2, 2) { auto c = cfg(2, 0, 0); c.batch_task_enable_ = true; dropping(4, 2, c, true); }
// tasks in progress that add others while the pool is destroyed
MC_SCENARIO(adding_while_destroyed, 2, 2, 3, 3) {
    reset(); { UThreadPool p(true, cfg(1, 1)); int w = mc_choose(3, "where"), v = mc_choose(5, "child"); int token = 0; mc_explore(1); { auto t = std::make_shared<Token>(&token); auto f = p.commit([&p, t, v] { job(0); p.execute([t] { job(1); }, WHERE[v]); return 0; }, WHERE[w == 2 ? 3 : w]); } ok(p.destroy(), "destroy"); off.set(1); gone(); MC_ASSERT(begun[0].peek() == ended[0].peek() && begun[1].peek() == ended[1].peek(), "task in progress"); MC_ASSERT(token == 1, "a dropped task is not freed"); } gone();
}
// the destructor alone
MC_SCENARIO(destructor, 2, 2, 4, 4) { reset(); std::future<int> f[2]; { auto c = cfg(1, mc_choose(2, "secondary"), 1, 2); c.monitor_enable_ = mc_choose(2, "monitor"); UThreadPool p(true, c); mc_explore(1); for (int i = 0; i < 2; i++) f[i] = p.commit([i] { return job(i); }, i ? -2 : -1); } off.set(1); mc_explore(0); gone(); for (int i = 0; i < 2; i++) MC_ASSERT(f[i].wait_for(std::chrono::milliseconds(0)) == std::future_status::ready, "a future is not decided by the destructor"); }
// all sequences of calls
static void history(int len) {
    reset(); { UThreadPool p(mc_choose(2, "automatic"), cfg(2, 0, 0, 3)); bool init = p.isInit(); int n = 2, sec = 0, serial = 0;
        for (int k = 0; k < len; k++) { int c = mc_choose(7, "call"); switch (c) {
            case 0: ok(p.init(), "init"); if (!init) sec = 0; init = true; break;
            case 1: ok(p.destroy(), "destroy"); init = false; sec = 0; break;
            case 2: case 3: { auto g = cfg(c - 1, 0, 0, c); bool r = p.setConfig(g).isOK(); MC_ASSERT(r == !init, "setConfig() while %sinitialised returned %s", init ? "" : "not ", r ? "success" : "an error"); if (!init) n = c - 1; break; }
            case 4: if (!init) mc_discard(); ok(p.createSecondaryThread(1 + k % 2), "create"); sec = sec || (n == 1 || n == 2); break;
            case 5: { if (init) { if (serial + 1 >= MAXT) mc_discard(); int i = serial++; MC_ASSERT(p.commit([i] { return job(i); }, WHERE[k % 3]).get() == 100 + i, "wrong result"); } else MC_ASSERT(!p.submit([] { mc_fail("executed by a pool that is not initialised"); }).isOK(), "submit() to a pool that is not initialised"); break; }
            case 6: { if (!init) mc_discard(); bool r = p.releaseSecondaryThread(sec ? 1 : 2).isOK(); MC_ASSERT(r == (sec > 0), "releaseSecondaryThread() with %d secondary threads returned %s", sec, r ? "success" : "an error"); if (r) { sec = 0; nap(1100); } break; } }
            MC_ASSERT(p.isInit() == init, "isInit()"); MC_ASSERT(mc_live_threads() == (init ? n + sec : 0), "%d threads, expected %d", mc_live_threads(), init ? n + sec : 0); MC_ASSERT(p.getConfig().default_thread_size_ == n, "configuration"); } }
    gone();
}
MC_SCENARIO(history_4, 0, 0, 0, 0) { history(4); }
MC_SCENARIO(history_5, -1, -1, 0, 0) { history(5); }
// creating and releasing secondary threads while tasks are executed: nothing is lost or interrupted, the maximum holds
MC_SCENARIO(resize, 2, 2, 3, 3) {
    reset(); UThreadPool p(true, cfg(1, 1, 1, 2)); int w = mc_choose(2, "where"); mc_explore(1); std::future<int> f[3]; f[0] = p.commit([] { return job(0); }, WHERE[w + 1]); ok(p.releaseSecondaryThread(1), "release"); f[1] = p.commit([] { return job(1); }, -2); ok(p.createSecondaryThread(2), "create"); MC_ASSERT(mc_live_threads() <= 3, "%d threads although the maximum is 2 and one was released", mc_live_threads()); (void)p.releaseSecondaryThread(mc_choose(2, "size")); f[2] = p.commit([] { return job(2); }); for (int i = 0; i < 3; i++) MC_ASSERT(f[i].get() == 100 + i, "wrong result"); mc_explore(0); nap(1500); MC_ASSERT(mc_live_threads() <= 2, "%d threads although the maximum is 2", mc_live_threads()); ok(p.destroy(), "destroy"); off.set(1); gone();
}
MC_SCENARIO(release_busy, 2, 2, 3, 3) {
    reset(); UThreadPool p(true, cfg(0, 2, 1, 2)); int n = 1 + mc_choose(2, "size"); mc_explore(1); auto a = p.commit([] { return job(0, 5); }, mc_choose(2, "where") ? -2 : -101); auto b = p.commit([] { return job(1, 5); }, -2); if (mc_choose(2, "wait")) nap(2); if (n == 2) { MC_ASSERT(a.get() == 100 && b.get() == 101, "wrong result"); } ok(p.releaseSecondaryThread(n), "release"); if (n == 1) MC_ASSERT(a.get() == 100 && b.get() == 101, "wrong result"); nap(1500); MC_ASSERT(mc_live_threads() == 2 - n, "%d threads", mc_live_threads()); MC_ASSERT(!p.releaseSecondaryThread(3 - n).isOK(), "released more than there are"); ok(p.createSecondaryThread(5), "create"); MC_ASSERT(mc_live_threads() == 2, "%d threads", mc_live_threads()); MC_ASSERT(p.commit([] { return job(2); }).get() == 102, "wrong result"); mc_explore(0); ok(p.destroy(), "destroy"); gone();
}
// the monitor adds secondary threads to a busy pool, releases idle ones, and ends with the pool
MC_SCENARIO(monitor_adds, 1, 1, 2, 2) {
    reset(); auto c = cfg(1, 0, 1, 3); c.monitor_enable_ = true; c.monitor_span_ = 1; c.secondary_thread_ttl_ = 3; UThreadPool p(true, c); mc_explore(1); std::promise<void> go; auto g = go.get_future().share(); std::future<int> f[3]; f[0] = p.commit([g] { g.get(); return job(0); }, 0); for (int i = 1; i < 3; i++) f[i] = p.commit([i] { return job(i); }, -2); nap(1500); for (int i = 1; i < 3; i++) MC_ASSERT(f[i].wait_for(std::chrono::milliseconds(2500)) == std::future_status::ready, "the monitor adds no thread to a busy pool"); MC_ASSERT(mc_live_threads() <= 4, "more threads than the maximum"); go.set_value(); f[0].get(); mc_explore(0);
    nap(20000); MC_ASSERT(mc_live_threads() == 2, "%d threads after a long idle time, expected a primary thread and the monitor", mc_live_threads()); long t = mc_now_ms(); ok(p.destroy(), "destroy"); off.set(1); gone(); MC_ASSERT(mc_now_ms() - t < 1000, "destroy() took %ld ms", (long)(mc_now_ms() - t));
}
// a pool some of whose threads are idle, and in which no prioritised task waits, gets no further ones
MC_SCENARIO(monitor_partly_busy, 0, 0, 1, 1) {
    reset(); int n = 2 + mc_choose(2, "threads"), busy = mc_choose(n, "busy threads"); auto c = cfg(n, 0, mc_choose(2, "busy epoch"), n + 2); c.monitor_enable_ = true; c.monitor_span_ = 1; UThreadPool p(true, c); mc_explore(1); std::promise<void> go; auto g = go.get_future().share(); std::vector<std::future<int>> f; for (int i = 0; i < busy; i++) f.push_back(p.commit([g, i] { g.get(); return job(i); }, i)); for (int k = 0; k < 4; k++) { nap(1000); MC_ASSERT(mc_live_threads() == n + 1, "%d of %d threads are busy, and there are %d besides the monitor", busy, n, mc_live_threads() - 1); } go.set_value(); for (auto &x : f) x.get(); mc_explore(0); ok(p.destroy(), "destroy"); off.set(1); gone();
}
// calls from several threads: the number of threads is the one that the successful calls add up to
MC_SCENARIO(changers, 2, 2, 3, 3) {
    reset(); int sec = 1 + mc_choose(2, "secondary"), op[2] = { mc_choose(2, "first"), 0 }; op[1] = op[0] ? mc_choose(2, "second") : 0; bool mon = mc_choose(2, "monitor"); auto c = cfg(1, sec, 1, 3); c.monitor_enable_ = mon; c.monitor_span_ = 1; c.secondary_thread_ttl_ = 9; UThreadPool p(true, c); bool r[2]; if (mon) nap(mc_choose(2, "moment") ? 999 : 500); mc_explore(1);
    { auto f = [&](int k) { r[k] = op[k] ? p.createSecondaryThread(1).isOK() : p.releaseSecondaryThread(1).isOK(); }; std::thread t([&] { f(1); }); f(0); t.join(); }
    int left = sec, released = 0; for (int k = 0; k < 2; k++) if (!op[k]) released += r[k]; MC_ASSERT(!(op[0] && !r[0]) && !(op[1] && !r[1]), "create fails"); if (!op[0] && !op[1]) { MC_ASSERT(released == std::min(2, sec), "%d of %d threads released by two calls", released, sec); left = sec - released; } else if (op[0] && op[1]) left = 2; else { MC_ASSERT(released == 1, "not released"); left = -1; }
    nap(200); mc_explore(0); int n = mc_live_threads() - 1 - mon; if (!mon) { nap(1500); n = mc_live_threads() - 1; MC_ASSERT(left < 0 ? n == sec || n == 1 : n == left, "%d secondary threads (of %d), expected %d", n, sec, left); } MC_ASSERT(p.commit([] { return job(0); }).get() == 100, "wrong result"); ok(p.destroy(), "destroy"); off.set(1); gone();
}
// secondary threads released by tasks, among them tasks that execute on the one that is released
MC_SCENARIO(release_inside, 1, 1, 2, 2) {
    reset(); int n = 1 + mc_choose(2, "secondary"), where = mc_choose(3, "where"), again = mc_choose(2, "create again"); static const CIndex AT[] = { CGRAPH_LONG_TIME_TASK_STRATEGY, CGRAPH_POOL_TASK_STRATEGY, 0 }; UThreadPool p(true, cfg(1, n, 1, 3)); mc_explore(1); std::promise<void> go; auto g = go.get_future().share(); std::vector<std::future<int>> f; for (int i = 0; i < n + 1; i++) f.push_back(p.commit([&p, g, i] { g.get(); auto s = p.releaseSecondaryThread(1); int r = job(i); return s.isOK() ? r : -r; }, AT[where])); go.set_value();
    // if all are released, the tasks meant for them are nobody's until one is created
    bool waits = false; int oks = 0; for (auto &x : f) { while (x.wait_for(std::chrono::milliseconds(3000)) != std::future_status::ready) { MC_ASSERT(!where && !waits, "a task is lost"); waits = true; ok(p.createSecondaryThread(1), "create"); } oks += x.get() > 0; } MC_ASSERT(oks == n + waits || (!where && oks <= n + 1), "%d releases of %d threads succeeded", oks, n); mc_explore(0);
    nap(3000); MC_ASSERT(mc_live_threads() == 1 + n + waits - oks, "%d threads, expected %d (%d released of %d and %d)", mc_live_threads(), 1 + n + waits - oks, oks, n, waits); if (again) { ok(p.createSecondaryThread(2 - (n + waits - oks)), "create"); MC_ASSERT(mc_live_threads() == 3, "created, but %d threads", mc_live_threads()); MC_ASSERT(p.commit([] { return job(7); }, CGRAPH_LONG_TIME_TASK_STRATEGY).get() == 107, "wrong result"); } ok(p.destroy(), "destroy"); off.set(1); gone();
}
MC_SCENARIO(monitor_releases, 2, 2, 3, 3) {
    reset(); auto c = cfg(1, 2, 1, 3); c.monitor_enable_ = true; c.monitor_span_ = 1; c.secondary_thread_ttl_ = 1; c.queue_emtpy_interval_ = 400; c.primary_thread_empty_interval_ = 5000; UThreadPool p(true, c); nap(999); mc_timers(1); mc_explore(1); auto f = p.commit([] { return job(0); }, -2); nap(2); MC_ASSERT(f.get() == 100, "wrong result"); mc_explore(0); mc_timers(0); auto g = p.commit([] { return job(1); }, WHERE[mc_choose(5, "where")]); MC_ASSERT(g.get() == 101, "wrong result"); nap(4000); ok(p.destroy(), "destroy"); off.set(1); gone();
}
MC_SCENARIO(monitor_lives, 2, 2, 3, 3) {
    reset(); auto c = cfg(1, 1, 1, 2); c.monitor_enable_ = true; c.monitor_span_ = 3; UThreadPool p(mc_choose(2, "automatic"), c); mc_explore(1); for (int l = 0; l < 2; l++) { off.set(0); ok(p.init(), "init"); if (l == mc_choose(2, "wait")) nap(3000); MC_ASSERT(p.commit([l] { return job(l); }).get() == 100 + l, "wrong result"); if (l == 1) { nap(1); MC_ASSERT(mc_live_threads() == 3, "%d threads in the second life, expected 3 with the monitor", mc_live_threads()); } long t = mc_now_ms(); ok(p.destroy(), "destroy"); off.set(1); MC_ASSERT(mc_now_ms() - t < 1000, "destroy() took %ld ms", (long)(mc_now_ms() - t)); gone(); } mc_explore(0);
}
