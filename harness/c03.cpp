// C03: run(), process(), destroy() and their futures return, in every schedule (a schedule in which they do not is
// reported by the runtime as deadlock or livelock); work is picked up without waiting for a timed wait to expire.
#include "common.h"
VT_MAIN
using namespace vt;

static const unsigned DIAMOND[] = { 0, 1, 1, 6 };
static const unsigned PAR[] = { 0, 0, 0, 0, 0, 0 };
static const unsigned BIPART[] = { 0, 0, 3, 3 };
static const unsigned CHAIN2[] = { 0, 1, 0, 4 };
static const unsigned FAN[] = { 0, 1, 1, 1 };
static const unsigned *G[] = { DIAMOND, PAR, BIPART, CHAIN2, FAN };

static void life(const unsigned *g, int n, int eng, UThreadPoolConfig c, int bad, int runs, bool explAll, bool strict = true) {
    auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(c); p->setGEngineType(engine(eng));
    build(p, n, g); W->checkDeps = false; if (bad >= 0) W->act[bad % 16] = bad < 16 ? ERR : THROW;      // +16: throws
    if (explAll) mc_explore(1);
    ok(p->init(), "init");
    mc_explore(1);
    for (int r = 0; r < runs; r++) {
        uint64_t t0 = mc_now_ms();
        auto s = runOnce(p);
        if (strict) MC_ASSERT(mc_now_ms() == t0, "run() completed only because a timed wait expired (after %d ms): a wakeup was lost", (int)(mc_now_ms() - t0));
        mc_outcome("run took %d ms of virtual time, %s", (int)(mc_now_ms() - t0), s.isErr() ? "error" : "ok");
    }
    if (!explAll) mc_explore(0);
    ok(p->destroy(), "destroy");
    GPipelineFactory::remove(p);
    mc_explore(0);
    MC_ASSERT(mc_live_threads() == 0, "%d threads live after the pipeline was removed", mc_live_threads());
}
// good and failing runs of every shape, engine and pool size
MC_SCENARIO(shapes, 1, 1, 2, 2) {
    VT_WORLD int g = mc_choose(5, "graph"), eng = mc_choose(2, "engine"), thr = 1 + mc_choose(3, "threads"), bad = mc_choose(9, "bad") - 1;
    life(G[g], 4, eng, cfg(thr), bad < 4 ? bad : bad + 12, 1, false);
}
MC_SCENARIO(config, 1, 1, 2, 2) {
    VT_WORLD int g = mc_choose(3, "graph"); auto c = cfg(1 + mc_choose(2, "threads"), mc_choose(2, "secondary"), mc_choose(3, "busy"));
    c.pipeline_wait_busy_epoch_ = mc_choose(2, "waitbusy"); c.batch_task_enable_ = mc_choose(2, "batch"); c.deliver_running_primary_thread_enable_ = mc_choose(2, "deliver");
    life(G[g], 4, 0, c, mc_choose(2, "bad") - 1, 1, false);
}
MC_SCENARIO(deep_diamond, 2, 2, 3, 3) { VT_WORLD life(DIAMOND, 4, 0, cfg(2), -1, 1, false); }
MC_SCENARIO(deep_diamond_fail, 2, 2, 3, 3) { VT_WORLD int b = mc_choose(6, "bad"); life(DIAMOND, 4, 0, cfg(2), b < 3 ? b + 1 : b + 14, 1, false); }
MC_SCENARIO(deep_parallel, 2, 2, 3, 3) { VT_WORLD int t = mc_choose(2, "threads") + 1; int b = mc_choose(3, "bad"); life(PAR, 3, 0, cfg(t), b == 2 ? 17 : b - 1, 1, false); }
MC_SCENARIO(whole_life, 1, 1, 2, 2) { VT_WORLD int g = mc_choose(5, "graph"), eng = mc_choose(3, "engine"); life(G[g], 4, eng, cfg(2), mc_choose(2, "bad") - 1, 1, true); }
MC_SCENARIO(whole_life_deep, 2, 2, 3, 3) { VT_WORLD life(CHAIN2, 2, 0, cfg(1 + mc_choose(2, "threads")), -1, 1, true); }
// spurious wakeups of condition variables and early expiry of timed waits are allowed by the standard
MC_SCENARIO(spurious, 2, 2, 3, 3) { VT_WORLD mc_spurious(1); int g = mc_choose(3, "graph"); life(G[g], 4, 0, cfg(2), mc_choose(2, "bad") - 1, 1, false); }
MC_SCENARIO(early_timeouts, 1, 1, 2, 2) { VT_WORLD mc_timers(1); int g = mc_choose(3, "graph"); life(G[g], 4, mc_choose(2, "engine"), cfg(2), mc_choose(2, "bad") - 1, 1, false, false); }
// futures of asyncRun / asyncProcess
MC_SCENARIO(async_run, 1, 1, 2, 2) {
    VT_WORLD auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(2)); build(p, 4, G[mc_choose(2, "graph")]); W->checkActive = false;
    bool bad = mc_choose(2, "bad"); W->checkDeps = !bad; if (bad) W->act[1] = ERR; bool proc = mc_choose(2, "process");
    if (!proc) ok(p->init(), "init");
    auto pol = mc_choose(2, "policy") ? std::launch::async : std::launch::deferred;
    mc_explore(1);
    { auto f = proc ? p->asyncProcess(1, pol) : p->asyncRun(pol); mc_point(); auto s = f.get();
      MC_ASSERT(s.isErr() == bad, "future returned code %d", s.getCode()); if (!bad) allRan(); }
    mc_explore(0);
    if (!proc) ok(p->destroy(), "destroy"); GPipelineFactory::remove(p);
}
