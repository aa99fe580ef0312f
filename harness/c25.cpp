// C25: tasks with a priority, long-running tasks and task groups of a thread pool.
#include "common.h"
#include <thread>
#include <future>
#include <stdexcept>
VT_MAIN
using namespace vt;
#define PLAIN __attribute__((no_sanitize("thread")))
static void nap(long ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }
static const int MAXT = 12;
static mc::Var runs[MAXT], over; static int order[MAXT]; static mc::Var next_;
static void reset() { handoverStart(); for (int i = 0; i < MAXT; i++) { runs[i].v = 0; order[i] = -1; } next_.v = over.v = 0; }
static PLAIN int job(int i, long ms = 0) { MC_ASSERT(runs[i].add(1) == 1, "task %d executes a second time", i); long n = next_.add(1); order[n - 1] = i; if (ms) nap(ms); mc_point(); over.add(1); return 100 + i; }
// one secondary thread, busy while tasks of all priorities arrive: they are executed by priority
static void priorities(int n, int values, bool batch, bool mixed) {
    reset(); static const int PR[] = { 0, 5, -7, 100, -100 }; auto c = cfg(1, 1); c.batch_task_enable_ = batch; UThreadPool p(true, c); std::promise<void> go, in; auto g = go.get_future(); auto busy = p.commitWithPriority([&] { in.set_value(); g.get(); return 1; }, 0); in.get_future().get(); std::promise<void> go1; auto g1 = go1.get_future(); int pr[8]; std::future<int> f[8];
    for (int i = 0; i < n; i++) { int v = mc_choose(values + mixed, "priority"); if (v == values) { pr[i] = -101; f[i] = p.commit([i] { return job(i); }, CGRAPH_LONG_TIME_TASK_STRATEGY); } else { pr[i] = PR[v]; f[i] = p.commitWithPriority([i] { return job(i); }, pr[i]); } }
    mc_explore(1); go.set_value(); for (int i = 0; i < n; i++) MC_ASSERT(f[i].get() == 100 + i, "wrong result"); mc_explore(0); for (int i = 0; i + 1 < n; i++) MC_ASSERT(pr[order[i]] >= pr[order[i + 1]], "task of priority %d is executed before one of priority %d", pr[order[i]], pr[order[i + 1]]); busy.get(); p.destroy();
}
MC_SCENARIO(by_priority, 1, 1, 2, 2) { priorities(4, 4, false, false); }
MC_SCENARIO(by_priority_mixed, 1, 1, 1, 1) { priorities(4, 2, false, true); }
MC_SCENARIO(by_priority_batch, 0, 0, 1, 1) { priorities(3, 5, true, false); }
MC_SCENARIO(by_priority_5, -1, -1, 0, 0) { priorities(6, 3, false, true); }
// always executed exactly once, whatever threads there are
MC_SCENARIO(always_executed, 1, 1, 2, 2) {
    reset(); static const int C[][4] = { { 1, 0, 1 }, { 1, 0, 2 }, { 2, 0, 2 }, { 1, 1, 2 }, { 0, 1, 1 }, { 1, 0, 3 }, { 0, 0, 1 } }; const int *k = C[mc_choose(7, "threads")]; auto c = cfg(k[0], k[1], 1, k[2]); c.batch_task_enable_ = mc_choose(2, "batch"); UThreadPool p(true, c); int kind[3]; for (auto &x : kind) x = mc_choose(3, "kind"); if (k[0] + k[1] == 0 && kind[0] == 2) mc_discard(); if (mc_choose(2, "asleep")) nap(75); mc_explore(1); std::future<int> f[3]; long t0 = mc_now_ms();
    for (int i = 0; i < 3; i++) f[i] = kind[i] == 0 ? p.commitWithPriority([i] { return job(i); }, i) : p.commit([i] { return job(i); }, kind[i] == 1 ? CGRAPH_LONG_TIME_TASK_STRATEGY : CGRAPH_DEFAULT_TASK_STRATEGY); for (int i = 0; i < 3; i++) MC_ASSERT(f[i].get() == 100 + i, "wrong result"); mc_explore(0); if (!k[1] && k[0] == k[2]) { bool lng = false; for (int x : kind) lng |= x == 1; if (!lng) MC_ASSERT((long)mc_now_ms() == t0, "the tasks wait %ld ms although there are idle threads", (long)mc_now_ms() - t0); } MC_ASSERT(mc_live_threads() <= k[2], "%d threads although the maximum is %d", mc_live_threads(), k[2]); p.destroy(); MC_ASSERT(mc_live_threads() == 0, "threads left");
}
// several threads use it at once, also from tasks
MC_SCENARIO(concurrent, 3, 3, 4, 4) { reset(); int m = 1 + mc_choose(3, "max"); UThreadPool p(true, cfg(1, 0, 1, m)); mc_explore(1); std::future<int> f[2]; std::thread t[2]; for (int i = 0; i < 2; i++) t[i] = std::thread([&, i] { f[i] = p.commitWithPriority([i] { return job(i); }, i); }); for (auto &x : t) x.join(); for (int i = 0; i < 2; i++) MC_ASSERT(f[i].get() == 100 + i, "wrong result"); MC_ASSERT(mc_live_threads() <= m, "%d threads although the maximum is %d", mc_live_threads(), m); mc_explore(0); p.destroy(); }
MC_SCENARIO(after_release, 3, 3, 4, 4) { reset(); UThreadPool p(true, cfg(1, 1, 1, 2)); int when = mc_choose(3, "when"); mc_explore(1); ok(p.releaseSecondaryThread(1), "release"); if (when == 1) nap(500); if (when == 2) nap(2500); auto f = p.commitWithPriority([] { return job(0); }, 3); auto g = p.commit([] { return job(1); }, CGRAPH_LONG_TIME_TASK_STRATEGY); MC_ASSERT(f.get() == 100 && g.get() == 101, "wrong result"); mc_explore(0); p.destroy(); }
// groups: success when all are finished in time, the callback is told, tasks that are late still finish
static CStatus told; static int calls; static long overAtCall;
static PLAIN void finished(CStatus s) { told = s; calls++; overAtCall = over.peek(); }
static void group(int n, int threads, int secondary, bool late) {
    reset(); calls = 0; auto c = cfg(threads, secondary, mc_choose(2, "busy epoch")); c.batch_task_enable_ = mc_choose(2, "batch"); { UThreadPool p(true, c); UTaskGroup g; static const long D[] = { 0, 40, 200 }; long d[4]; static const CMSec TTL[] = { CGRAPH_MAX_BLOCK_TTL, 100 }; bool cb = mc_choose(2, "callback"); for (int i = 0; i < n; i++) { d[i] = D[late ? mc_choose(3, "duration") : 0]; long dd = d[i]; give(i); g.addTask([i, dd] { taken(i); job(i, dd); give(40 + i); }); } int w = late ? mc_choose(3, "limit") : 0; if (w == 1) g.setTtl(TTL[1]); if (cb) g.setOnFinished(finished); MC_ASSERT(g.getSize() == (CSize)n, "size");
        mc_explore(1); long t0 = mc_now_ms(); CStatus s = w == 2 ? p.submit(g, TTL[1]) : p.submit(g); long t = mc_now_ms() - t0; mc_explore(0); long done = over.peek(), limit = w ? 100 : 1000000;
        long all = 0, one = 0; for (int i = 0; i < n; i++) { all += d[i]; if (d[i] > one) one = d[i]; } if (s.isOK()) MC_ASSERT(done == n && t <= limit, "submit() succeeds with %ld of %d tasks finished after %ld ms", done, n, t); else MC_ASSERT(w && done < n && t == limit, "submit() fails with %ld of %d tasks finished after %ld ms: %s", done, n, t, s.getInfo().c_str()); if (!w || all < limit - 1) MC_ASSERT(s.isOK(), "submit() fails although everything is in time"); if (w && one > limit) MC_ASSERT(!s.isOK(), "submit() succeeds although a task is late");
        if (s.isOK()) for (int i = 0; i < n; i++) taken(40 + i); MC_ASSERT(calls == (cb ? 1 : 0), "callback called %d times", calls); if (cb) MC_ASSERT(told.getCode() == s.getCode() && told.getInfo() == s.getInfo() && overAtCall == done, "the callback is told something else"); nap(2000); for (int i = 0; i < n; i++) MC_ASSERT(runs[i].peek() == 1, "task %d executed %ld times", i, runs[i].peek()); MC_ASSERT(over.peek() == n, "a late task did not finish");
        // the group can be used again
        if (!late) { for (int i = 0; i < n; i++) runs[i].v = 0; over.v = next_.v = 0; ok(p.submit(g), "again"); MC_ASSERT(over.peek() == n, "used again, %ld of %d executed", over.peek(), n); g.clear(); ok(p.submit(g), "empty"); MC_ASSERT(g.getSize() == 0 && over.peek() == n && calls == (cb ? 3 : 0), "empty group"); } }
}
MC_SCENARIO(groups, 2, 2, 3, 3) { group(3, 2, 0, false); }
MC_SCENARIO(groups_1_thread, 2, 2, 3, 3) { group(2, 1, 0, false); }
MC_SCENARIO(groups_secondary, 1, 1, 1, 1) { group(3, mc_choose(2, "primary"), 1, false); }
MC_SCENARIO(groups_late, 1, 1, 2, 2) { group(2, 2, 0, true); }
MC_SCENARIO(groups_late_3, -1, -1, 0, 0) { group(3, 2, 0, true); }
// a single function, from several threads at once; a task that throws does not harm the others
MC_SCENARIO(single, 2, 2, 3, 3) { reset(); calls = 0; UThreadPool p(true, cfg(2)); mc_explore(1); int bad = mc_choose(2, "throws"); std::thread t([&] { ok(p.submit([] { job(0); }, 5000), "submit"); MC_ASSERT(runs[0].get() == 1 && over.get() >= 1, "not executed"); }); CStatus s = p.submit([bad] { job(1); if (bad) throw std::runtime_error("x"); }, 5000, finished); t.join(); mc_explore(0); MC_ASSERT(calls == 1 && over.peek() == 2, "callback called %d times", calls); if (!bad) ok(s, "submit"); MC_ASSERT(p.commit([] { return 4; }).get() == 4, "the pool is dead"); }
MC_SCENARIO(no_time, 0, 0, 2, 2) { reset(); UThreadPool p(true, cfg(1)); mc_explore(1); CStatus s = p.submit([] { job(0, 10); }, 0); MC_ASSERT(!s.isOK(), "no time, but success"); mc_explore(0); nap(100); MC_ASSERT(runs[0].peek() == 1 && over.peek() == 1, "the late task was not executed"); UThreadPool q(false); MC_ASSERT(!q.submit([] { mc_fail("executed"); }).isOK(), "submit() to a pool that is not initialised"); }
