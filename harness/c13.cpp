// C13: adapters: functions, singletons, coordinators.
#include "common.h"
#include <thread>
#include <chrono>
VT_MAIN
using namespace vt;
static const unsigned GR[][4] = { { 0, 1, 1, 6 }, { 0, 0, 0, 0 }, { 0, 1, 2, 4 }, { 0, 0, 3, 3 } };
// functions take the place of nodes: x(function) for the elements in mask, nodes elsewhere
static void functions(int g, int mask, int bad, int eng, int late) {
    VT_WORLD
    auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(2)); p->setGEngineType(engine(eng)); GElementPtr e[4]; W->n = 4; W->checkFailed = true; if (bad >= 0) W->act[bad] = ERR;
    for (int i = 0; i < 4; i++) {
        W->pre[i] = GR[g][i]; GElementPtrSet d; for (int j = 0; j < i; j++) if (GR[g][i] >> j & 1) d.insert(e[j]);
        if (mask >> i & 1) {
            GFunctionPtr f = nullptr; ok(p->registerGElement<GFunction>(&f, d, "f" + std::to_string(i), 1 + (i == 1)), "function"); W->loops[i] = 1 + (i == 1);
            auto set = [=] { f->setFunction(CFunctionType::INIT, [i] { W->inits[i]++; return CStatus(); })->setFunction(CFunctionType::RUN, [i] { return body(i); })->setFunction(CFunctionType::DESTROY, [i] { W->dests[i]++; return CStatus(); }); };
            if (late) { f->setFunction(CFunctionType::RUN, [] { mc_fail("a replaced function was called"); return CStatus(); }); } set(); e[i] = f;
        } else { ok(p->registerGElement<VNode>(&e[i], d, "n" + std::to_string(i)), "node"); static_cast<VNode *>(e[i])->vid = i; }
    }
    for (int l = 0; l < 2; l++) {
        ok(p->init(), "init"); for (int i = 0; i < 4; i++) MC_ASSERT(W->inits[i] == l + 1, "init of element %d called %ld times", i, W->inits[i]);
        mc_explore(1); auto s = runOnce(p); mc_explore(0); if (bad >= 0) MC_ASSERT(s.getCode() == -100 - bad && s.getInfo() == "err" + std::to_string(bad), "run returned %d %s", s.getCode(), s.getInfo().c_str()); else { ok(s, "run"); allRan(); }
        ok(p->destroy(), "destroy"); for (int i = 0; i < 4; i++) MC_ASSERT(W->dests[i] == l + 1, "destroy of element %d called %ld times", i, W->dests[i]); if (!late) break;
    }
    GPipelineFactory::remove(p);
}
MC_SCENARIO(functions, 0, 0, 1, 1) { int g = mc_choose(4, "graph"), mask = 1 + mc_choose(15, "functions"), bad = mc_choose(5, "bad") - 1, eng = mc_choose(3, "engine"); functions(g, mask, bad, eng, mc_choose(2, "late")); }
MC_SCENARIO(functions_preempt, 1, 1, 2, 2) { int g = mc_choose(3, "graph"), mask = mc_choose(2, "functions") ? 15 : 6; functions(g, mask, mc_choose(2, "bad") ? 1 : -1, mc_choose(2, "engine"), 0); }
// what is not set does nothing; init and destroy functions fail like those of nodes; setting functions after init() is refused
MC_SCENARIO(function_parts, 0, 0, 0, 0) {
    VT_WORLD int mask = mc_choose(8, "set"), fail = mc_choose(4, "fail"), th = mc_choose(2, "throw"); if (th && fail == 0) return; auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(1)); GFunctionPtr f = nullptr; int n[3] = {};
    ok(p->registerGElement<GFunction>(&f, {}, "f"), "function"); CFunctionType ty[3] = { CFunctionType::INIT, CFunctionType::RUN, CFunctionType::DESTROY };
    for (int k = 0; k < 3; k++) if (mask >> k & 1) f->setFunction(ty[k], [&n, k, fail, th] { n[k]++; if (fail == k + 1) { if (th) CGRAPH_THROW_EXCEPTION("thr") return CStatus(-50 - k, "e"); } return CStatus(); });
    auto call = [](std::function<CStatus()> c) { CStatus s; try { s += c(); } catch (const CException &) { s += CStatus(internal::STATUS_CRASH, ""); } return s; }; auto want = [&](int k) { return fail == k + 1 && (mask >> k & 1) ? (th ? internal::STATUS_CRASH : -50 - k) : 0; };
    auto s = call([&] { return p->init(); }); MC_ASSERT(s.getCode() == want(0), "init returned %d", s.getCode()); MC_ASSERT(n[0] == (mask & 1), "init function called %d times", n[0]); if (want(0)) { GPipelineFactory::remove(p); return; }
    bool refused = false; try { f->setFunction(CFunctionType::RUN, [] { mc_fail("a function set after init() was called"); return CStatus(); }); } catch (const CException &) { refused = true; } MC_ASSERT(refused, "a function was accepted after init()");
    s = call([&] { return p->run(); }); MC_ASSERT(s.getCode() == want(1), "run returned %d", s.getCode()); MC_ASSERT(n[1] == (mask >> 1 & 1), "run function called %d times", n[1]);
    s = call([&] { return p->destroy(); }); MC_ASSERT(s.getCode() == want(2), "destroy returned %d", s.getCode()); MC_ASSERT(n[2] == (mask >> 2 & 1), "destroy function called %d times", n[2]); GPipelineFactory::remove(p);
}
// all singleton elements of one type are one object, initialised once, destroyed once, executed at each of their places
static long sInit, sDest, sHold; static __attribute__((no_sanitize("thread"))) bool takeHold() { return sHold > 0 ? sHold--, true : false; } static mc::Var sRun; static void *sThis; static int sMatch; static bool sOne;
template<int K> class SNode : public GNode { public:
    CStatus init() override { sInit++; return CStatus(); } CStatus destroy() override { sDest++; return CStatus(); } CBool isHold() override { return takeHold(); } CBool isMatch() override { return sMatch; }
    CStatus run() override { if (sOne) { MC_ASSERT(!sThis || sThis == this, "two objects of one singleton type"); sThis = this; } sRun.add(1); mc_point(); return CStatus(); } };
MC_SCENARIO(singletons, 1, 1, 2, 2) {
    VT_WORLD int n = 2 + mc_choose(2, "n"), shape = mc_choose(3, "shape"), eng = mc_choose(3, "engine"), two = mc_choose(2, "pipelines"), hold = mc_choose(2, "hold"), kind = mc_choose(2, "types"); if (kind && hold) return; if (two && hold) return;
    sOne = kind == 0; GPipelinePtr p[2]; long loops = 0; GElementPtr e[2][3];
    for (int q = 0; q <= two; q++) { p[q] = GPipelineFactory::create(); p[q]->setUniqueThreadPoolConfig(cfg(2)); p[q]->setGEngineType(engine(eng));
        for (int i = 0; i < n; i++) { GElementPtrSet d; if (i && shape) d.insert(e[q][shape == 1 ? i - 1 : 0]); int loop = 1 + (i == 1); loops += q == 0 ? loop : 0; if (kind && i) ok(p[q]->registerGElement<GSingleton<SNode<1>>>(&e[q][i], d, "s", loop), "singleton"); else ok(p[q]->registerGElement<GSingleton<SNode<0>>>(&e[q][i], d, "s", loop), "singleton"); } }
    sHold = hold ? 2 : 0; for (int q = 0; q <= two; q++) ok(p[q]->init(), "init"); MC_ASSERT(sInit == 1 + kind, "init of a singleton called %ld times", sInit);
    for (int r = 0; r < 2; r++) for (int q = 0; q <= two; q++) { long b = sRun.peek(); mc_explore(q == 0); ok(p[q]->run(), "run"); mc_explore(0); MC_ASSERT(sRun.peek() - b == loops + (r == 0 && hold ? 2 : 0), "singleton executed %ld times, its elements %ld", sRun.peek() - b, loops); }
    for (int q = 0; q <= two; q++) ok(p[q]->destroy(), "destroy"); MC_ASSERT(sDest == 1 + kind, "destroy of a singleton called %ld times", sDest);
    ok(p[0]->init(), "init"); MC_ASSERT(sInit == 2 * (1 + kind), "init of a singleton called %ld times after the second init()", sInit); long b = sRun.peek(); ok(p[0]->run(), "run"); MC_ASSERT(sRun.peek() - b == loops, "executed %ld times", sRun.peek() - b); ok(p[0]->destroy(), "destroy");
    for (int q = 0; q <= two; q++) GPipelineFactory::remove(p[q]); MC_ASSERT(mc_live_threads() == 0, "threads left");
}
// coordinators change the number of secondary threads, within the limit of the pool, one after the other or at once
template<int A, int B> static void coord(int order, int def, int sec, int max) {
    VT_WORLD auto p = GPipelineFactory::create(); auto c = cfg(def, sec, 1, max); c.queue_emtpy_interval_ = 1; p->setUniqueThreadPoolConfig(c); GElementPtr a = nullptr, b = nullptr, e[3]; W->n = 3; W->checkDeps = false;
    ok((p->registerGElement<GCoordinator<A>>(&a, {}, "a")), "coordinator"); ok((p->registerGElement<GCoordinator<B>>(&b, order ? GElementPtrSet{ a } : GElementPtrSet{}, "b")), "coordinator");
    for (int i = 0; i < 3; i++) { ok(p->registerGElement<VNode>(&e[i], order ? GElementPtrSet{ b } : GElementPtrSet{}, "n"), "node"); static_cast<VNode *>(e[i])->vid = i; }
    ok(p->init(), "init"); MC_ASSERT(mc_live_threads() == def + std::min(sec, max - def), "%d threads after init()", mc_live_threads());
    int have = std::min(sec, max - def), want = have; bool err = false; for (int d : { A, B }) { if (d >= 0) want = std::min(want + d, max - def); else if (-d > want) { err = true; if (order) break; } else want += d; }
    mc_explore(1); auto s = runOnce(p); mc_explore(0); int live = mc_live_threads();
    MC_ASSERT(live <= max, "%d threads live, the pool's limit is %d", live, max);
    if (order) { MC_ASSERT(s.isErr() == err, "run() returned %d for changes %+d %+d of %d secondary threads (limit %d)", s.getCode(), A, B, have, max - def); if (!err) allRan(); std::this_thread::sleep_for(std::chrono::milliseconds(50)); live = mc_live_threads(); if (!err && !(A < 0 && B > 0)) MC_ASSERT(live == def + want, "%d threads live, expected %d", live, def + want); }
    else if (A >= 0 && B >= 0) { ok(s, "run"); allRan(); MC_ASSERT(live == def + want, "%d threads live, expected %d", live, def + want); }
    mc_outcome("%d threads, %s", live, s.isErr() ? "error" : "ok"); if (A >= 0 && B >= 0) { ok(runOnce(p), "next run"); allRan(); } ok(p->destroy(), "destroy"); MC_ASSERT(mc_live_threads() == 0, "%d threads live after destroy()", mc_live_threads()); GPipelineFactory::remove(p);
}
MC_SCENARIO(coordinator_grows, 1, 1, 2, 2) { int o = mc_choose(2, "order"), k = mc_choose(3, "sizes"), m = 3 + mc_choose(3, "max"); k == 0 ? coord<1, 1>(o, 2, 0, m) : k == 1 ? coord<2, 1>(o, 2, 0, m) : coord<0, 3>(o, 2, 1, m); }
MC_SCENARIO(coordinator_shrinks, 1, 1, 2, 2) { int k = mc_choose(5, "sizes"), sec = mc_choose(3, "secondary"); switch (k) { case 0: coord<-1, 0>(1, 1, sec, 4); break; case 1: coord<2, -1>(1, 1, sec, 4); break; case 2: coord<-1, -1>(1, 1, sec, 4); break; case 3: coord<-2, 1>(1, 1, sec, 4); break; default: coord<3, -4>(1, 1, sec, 4); } }
// the lazy and the hungry singleton of the utilities: one object however many threads ask first
static mc::Var made; class Obj : public CObject { public: Obj() { made.add(1); mc_point(); } CStatus run() override { return CStatus(); } };
template<USingletonType TY> static void lazy(int n) {
    USingleton<Obj, TY> s; Obj *got[3] = {}; std::vector<std::thread> t; mc_explore(1); for (int i = 0; i < n; i++) t.emplace_back([&, i] { got[i] = s.get(); }); for (auto &x : t) x.join(); mc_explore(0);
    for (int i = 0; i < n; i++) MC_ASSERT(got[i] && got[i] == got[0], "threads got different objects"); MC_ASSERT(made.peek() == 1, "%ld objects made", made.peek());
}
MC_SCENARIO(lazy_singleton, 3, 3, 5, 5) { mc_choose(2, "type") ? lazy<USingletonType::LAZY>(3) : lazy<USingletonType::HUNGRY>(2); }
// a singleton whose init() fails: it is asked again, and executes
static int tFail, tRuns, tDest; class TNode : public GNode { public: CStatus init() override { sInit++; if (tFail > 0) { tFail--; return CStatus(-9, "noinit"); } return CStatus(); } CStatus run() override { MC_ASSERT(sInit >= 2 && !tFail, "a singleton that is not initialised executes"); tRuns++; return CStatus(); } CStatus destroy() override { tDest++; return CStatus(); } };
MC_SCENARIO(singleton_fails, 0, 0, 0, 0) {
    VT_WORLD int n = 1 + mc_choose(2, "places"), two = mc_choose(2, "pipelines"), eng = mc_choose(3, "engine"); sInit = 0; tFail = 1; tRuns = tDest = 0; GPipelinePtr p[2]; for (int q = 0; q <= two; q++) { p[q] = GPipelineFactory::create(); p[q]->setUniqueThreadPoolConfig(cfg(2)); p[q]->setGEngineType(engine(eng)); GElementPtr e = nullptr; for (int i = 0; i < n; i++) ok(p[q]->registerGElement<GSingleton<TNode>>(&e, i ? GElementPtrSet{ e } : GElementPtrSet{}, "s"), "singleton"); }
    auto s = p[0]->init(); MC_ASSERT(s.getCode() == -9 && s.getInfo() == "noinit", "init() returned [%d] %s although the singleton failed", s.getCode(), s.getInfo().c_str()); MC_ASSERT(tDest == 0, "a singleton that was not initialised was destroyed");
    if (two) { ok(p[1]->init(), "init of another pipeline"); MC_ASSERT(sInit == 2, "init of a singleton called %ld times", sInit); ok(p[1]->run(), "run"); MC_ASSERT(tRuns == n, "executed %d times", tRuns); tRuns = 0; }
    ok(p[0]->init(), "init() after one that failed"); MC_ASSERT(sInit == 2, "init of a singleton called %ld times", sInit); ok(p[0]->run(), "run"); MC_ASSERT(tRuns == n, "executed %d times", tRuns); for (int q = 0; q <= two; q++) ok(p[q]->destroy(), "destroy"); MC_ASSERT(tDest == 1, "destroyed %d times", tDest); for (int q = 0; q <= two; q++) GPipelineFactory::remove(p[q]);
}
