// C20: daemons and timers: executed at their interval while the pipeline is initialised, and never after destroy().
#include "common.h"
#include <thread>
#include <chrono>
#include <map>
VT_MAIN
using namespace vt;
static void nap(long ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }
struct DP : public GDaemonParam { int id = -1, take = 0, change = 0; std::string s; CVoid clone(GPassedParam *p) override { auto *x = dynamic_cast<DP *>(p); id = x->id; take = x->take; change = x->change; s = x->s; } };
struct Shared : public GParam { int v = 0; };
enum { ND = 3, NT = 64 };
static long at[ND][NT]; static mc::Var cnt[ND], inside[ND], off, evs; static int dead, notifyKind; static bool useParam;
class D : public GDaemon { public: ~D() override { dead++; }
    CVoid daemonTask(GDaemonParamPtr p) override { auto *x = dynamic_cast<DP *>(p); MC_ASSERT(x && x->s == "d" + std::to_string(x->id), "a daemon lost its parameter"); int i = x->id; MC_ASSERT(!off.get(), "daemon %d executes although the pipeline is not initialised", i); MC_ASSERT(inside[i].add(1) == 1, "daemon overlaps itself"); long n = cnt[i].peek(); if (n < NT) at[i][n] = mc_now_ms(); cnt[i].add(1);
        if (useParam) { auto *q = getGParam<Shared>("p"); MC_ASSERT(q, "a daemon does not find the parameter"); } if (notifyKind) ok(notify("e", notifyKind == 1 ? GEventType::SYNC : GEventType::ASYNC, notifyKind == 3 ? GEventAsyncStrategy::PIPELINE_DESTROY : GEventAsyncStrategy::PIPELINE_RUN_FINISH), "notify"); if (x->take) nap(x->take); inside[i].add(-1); }
    CMSec modify(GDaemonParamPtr p) override { auto *x = dynamic_cast<DP *>(p); return x->change ? (cnt[x->id].peek() % 2 ? x->change : 0) : 0; } };
class TD : public GTemplateDaemon<int, std::string> { public: int a; std::string b; explicit TD(int x, const std::string &y) : a(x), b(y) {} CVoid daemonTask(GDaemonParamPtr) override { MC_ASSERT(b == "t" + std::to_string(a) && getInterval() == 20, "a template daemon lost its arguments"); cnt[2].add(1); } };
class Ev : public GEvent { public: CVoid trigger(GEventParamPtr) override { MC_ASSERT(!off.get(), "an event of a daemon executes although the pipeline is not initialised"); mc_point(); evs.add(1); } };
class N : public GNode { public: int fail = 0; CStatus init() override { createGParam<Shared>("p"); return fail ? CStatus(-71, "n") : CStatus(); } CStatus run() override { mc_point(); return CStatus(); } };
static void reset() { for (int i = 0; i < ND; i++) cnt[i].v = inside[i].v = 0; off.v = 1; evs.v = 0; dead = notifyKind = 0; useParam = false; }
static void check(int i, long t0, int interval, const DP &d, long until) {     // exact times, as long as nobody else delays the daemon
    long t = t0 + interval; int n = 0; while (t < until) { MC_ASSERT(n < cnt[i].peek(), "daemon %d executed %ld times in %ld ms with interval %d, expected at least %d", i, cnt[i].peek(), until - t0, interval, n + 1); MC_ASSERT(at[i][n] == t, "execution %d of daemon %d was at %ld ms, expected at %ld ms", n, i, at[i][n] - t0, t - t0); n++; long next = d.change && n % 2 ? d.change : interval > d.take ? interval - d.take : interval; t += d.take + next; }
    MC_ASSERT(cnt[i].peek() <= n + (t == until), "daemon %d executed %ld times, expected %d", i, cnt[i].peek(), n);
}
struct Pipe { GPipelinePtr p; GElementPtr e = nullptr; Pipe() { reset(); p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(2)); ok(p->registerGElement<N>(&e, {}, "n"), "register"); }
    DP add(int i, int interval, int take, int change) { DP d; d.id = i; d.take = take; d.change = change; d.s = "d" + std::to_string(i); DP c = d; p->addGDaemon<D, DP>(interval, &c); c.s = "x"; return d; }
    void init() { off.set(0); ok(p->init(), "init"); } void destroy() { ok(p->destroy(), "destroy"); off.set(1); } void end() { GPipelineFactory::remove(p); MC_ASSERT(mc_live_threads() == 0, "threads left"); } };
// when they execute, over two lives of the pipeline
static void periodic() {
    VT_WORLD Pipe q; int n = 1 + mc_choose(2, "daemons"); static const int iv[] = { 10, 25 }, tk[] = { 0, 4, 33 }; int interval[2]; DP d[2]; for (int i = 0; i < n; i++) { interval[i] = iv[mc_choose(2, "interval")]; d[i] = q.add(i, interval[i], tk[mc_choose(3, "duration")], mc_choose(2, "modify") * 7); } int runs = mc_choose(3, "runs"); useParam = true;
    for (int life = 0; life < 2; life++) { for (auto &c : cnt) c.v = 0; long t0 = mc_now_ms(); mc_explore(1); q.init(); for (int r = 0; r < runs; r++) ok(q.p->run(), "run"); nap(100); mc_explore(0); long t1 = mc_now_ms(); for (int i = 0; i < n; i++) check(i, t0, interval[i], d[i], t1); q.destroy(); long c0 = cnt[0].get(), late = mc_now_ms() - t1; MC_ASSERT(late <= 66, "destroy() took %ld ms", late); nap(200); MC_ASSERT(cnt[0].get() == c0, "a daemon executed after destroy()"); }
    q.end(); MC_ASSERT(dead == n, "%d of %d daemons freed", dead, n);
}
MC_SCENARIO(at_intervals, 1, 1, 2, 2) { periodic(); }
// destroy() at any moment: it does not wait for the interval
MC_SCENARIO(stop_at_any_moment, 3, 3, 5, 5) {
    VT_WORLD Pipe q; q.add(0, 1000, 0, 0); int lives = 2; for (int l = 0; l < lives; l++) { q.init(); mc_explore(1); if (l == 0 && mc_choose(2, "wait")) nap(1000); long t = mc_now_ms(); q.destroy(); mc_explore(0); MC_ASSERT(mc_now_ms() - t < 500, "destroy() took %ld ms although no daemon was executing", (long)(mc_now_ms() - t)); } q.end();
}
// a condition variable may wake up without reason: the daemon keeps its interval
MC_SCENARIO(spurious, 2, 2, 3, 3) { VT_WORLD Pipe q; int I = 40; auto d = q.add(0, I, 0, 0); q.init(); long t0 = mc_now_ms(); mc_spurious(1); mc_explore(1); nap(30); mc_explore(0); nap(100); check(0, t0, I, d, mc_now_ms()); q.destroy(); q.end(); }
// daemons that trigger events while the pipeline runs or ends
MC_SCENARIO(events, 2, 2, 3, 3) {
    VT_WORLD Pipe q; q.p->addGEvent<Ev>("e"); notifyKind = 1 + mc_choose(3, "kind"); q.add(0, 10, 0, 0); q.init(); nap(9); mc_timers(1); mc_explore(1); ok(q.p->run(), "run"); long c = cnt[0].get(); (void)c; q.destroy(); mc_explore(0); mc_timers(0); nap(100); MC_ASSERT(evs.get() == cnt[0].get(), "%ld triggers of a daemon, event executed %ld times", cnt[0].peek(), evs.peek()); q.end();
}
// init() that fails starts nothing, and can be repeated
MC_SCENARIO(failed_init, 2, 2, 4, 4) {
    VT_WORLD Pipe q; q.add(0, 10, 0, 0); auto *n = static_cast<N *>(q.e); n->fail = 1; MC_ASSERT(q.p->init().getCode() == -71, "init succeeded"); mc_explore(1); nap(35); mc_explore(0); if (mc_choose(2, "repeat")) { n->fail = 0; off.set(0); ok(q.p->init(), "second init"); nap(35); MC_ASSERT(cnt[0].get() == 3, "executed %ld times", cnt[0].peek()); q.destroy(); } q.end(); MC_ASSERT(dead == 1, "daemon not freed");
}
MC_SCENARIO(template_daemon, 0, 0, 1, 1) { VT_WORLD Pipe q; q.p->addGDaemon<TD, int, std::string>(20, 5, std::string("t5")); q.init(); mc_explore(1); nap(70); mc_explore(0); MC_ASSERT(cnt[2].get() == 3, "executed %ld times", cnt[2].peek()); bool thr = false; try { DP d; q.p->addGDaemon<D, DP>(10, &d); } catch (const CException &) { thr = true; } MC_ASSERT(thr, "a daemon was added while initialised"); q.destroy(); q.end(); }
// the timer by itself: start while running is ignored, stop twice, restart
MC_SCENARIO(timer, 4, 4, 6, 6) {
    VT_WORLD UTimer t; mc::Var a, b; mc_explore(1); int I = 10; for (int k = 0; k < 2; k++) { a.v = b.v = 0; int w = mc_choose(3, "stop"); t.start(I, [&] { a.add(1); }, [] { return (CMSec)0; }); t.start(1, [&] { b.add(1); }, [] { return (CMSec)0; }); if (w) nap(w == 1 ? 5 : 25); long c = a.get(); MC_ASSERT(c == w / 2 * 2 && b.get() == 0, "executed %ld times", c); t.stop(); long x = a.get(); t.stop(); nap(50); MC_ASSERT(a.get() == x, "executed after stop()"); }
}
