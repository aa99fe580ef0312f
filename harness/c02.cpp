// C02: nothing of a run executes once run() has returned.
#include "common.h"
VT_MAIN
using namespace vt;

static const unsigned DIAMOND[] = { 0, 1, 1, 6 };
static const unsigned PAR[] = { 0, 0, 0, 0, 0 };
static const unsigned BIPART[] = { 0, 0, 3, 3 };
static const unsigned CHAIN2[] = { 0, 1, 0, 4 };
static const unsigned FAN[] = { 0, 1, 1, 1 };
static const unsigned CHAIN4[] = { 0, 1, 2, 4 };

// First run with one failing element, then a good run; the oracle checks that elements only execute inside a run.
static void failing(int n, const unsigned *pre, int eng, int threads, int bad, int how, int secondary = 0, int waitBusy = 0) {
    auto p = GPipelineFactory::create();
    auto c = cfg(threads, secondary); c.pipeline_wait_busy_epoch_ = waitBusy;
    p->setUniqueThreadPoolConfig(c); p->setGEngineType(engine(eng));
    auto e = build(p, n, pre);
    W->checkDeps = false;    // that is C04
    ok(p->init(), "init");
    W->act[bad] = how;
    mc_explore(1);
    auto s = runOnce(p);
    MC_ASSERT(s.isErr(), "run() with a failing element returned code %d", s.getCode());
    mc_point();
    W->act[bad] = OK;
    W->checkDeps = true;
    s = runOnce(p);
    mc_explore(0);
    ok(s, "run after a failed run");
    allRan();
    ok(p->destroy(), "destroy"); GPipelineFactory::remove(p);
}
MC_SCENARIO(fail_parallel, 2, 2, 2, 3) { VT_WORLD int t = 1 + mc_choose(2, "threads"); int n = 2 + mc_choose(2, "n"); failing(n, PAR, 0, t, mc_choose(n, "bad"), ERR, 0, mc_choose(2, "waitbusy")); }
MC_SCENARIO(fail_diamond, 1, 1, 2, 2) { VT_WORLD failing(4, DIAMOND, mc_choose(2, "engine"), 2, mc_choose(4, "bad"), ERR); }
MC_SCENARIO(fail_bipartite, 1, 1, 2, 2) { VT_WORLD failing(4, BIPART, mc_choose(2, "engine"), 2, mc_choose(4, "bad"), ERR, mc_choose(2, "sec")); }
MC_SCENARIO(fail_two_chains, 1, 1, 2, 2) { VT_WORLD failing(4, CHAIN2, mc_choose(2, "engine"), 2, mc_choose(4, "bad"), ERR, 0, mc_choose(2, "waitbusy")); }
MC_SCENARIO(fail_chain, 1, 1, 2, 2) { VT_WORLD int n = 1 + mc_choose(4, "n"); failing(n, CHAIN4, mc_choose(2, "engine"), 1 + mc_choose(2, "threads"), mc_choose(n, "bad"), mc_choose(2, "throw") ? THROW : ERR); }
MC_SCENARIO(fail_fan, 1, 1, 2, 2) { VT_WORLD failing(4, FAN, mc_choose(2, "engine"), 2, mc_choose(4, "bad"), mc_choose(2, "throw") ? THROW : ERR); }

// success: every DAG over 4 elements; explored over the whole life, including destroy and removal
MC_SCENARIO(ok_all_dags4, 1, 1, 2, 2) {
    VT_WORLD
    int k = mc_choose(dagCount(4), "dag"); unsigned pre[8]; dag(4, k, pre);
    auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(2)); build(p, 4, pre); ok(p->init(), "init");
    mc_explore(1);
    for (int r = 0; r < 2; r++) { ok(runOnce(p), "run"); allRan(); }
    ok(p->destroy(), "destroy"); GPipelineFactory::remove(p);
    mc_explore(0);
    MC_ASSERT(mc_live_threads() == 0, "%d threads live after the pipeline was removed", mc_live_threads());
}
// failing run immediately followed by destruction of everything: the memory check of the runtime sees every later touch
static void failDestroy(bool shared) {
    VT_WORLD
    UThreadPool *tp = nullptr;
    auto p = GPipelineFactory::create();
    if (shared) { tp = new UThreadPool(true, cfg(2)); p->setSharedThreadPool(tp); } else p->setUniqueThreadPoolConfig(cfg(2));
    static const unsigned *G[] = { DIAMOND, CHAIN2, PAR }; int g = mc_choose(3, "graph"); p->setGEngineType(engine(mc_choose(2, "engine")));
    build(p, 4, G[g]); ok(p->init(), "init");
    W->checkDeps = false; W->act[mc_choose(4, "bad")] = ERR;
    mc_explore(1);
    auto s = runOnce(p); MC_ASSERT(s.isErr(), "run() with a failing element returned code %d", s.getCode());
    ok(p->destroy(), "destroy"); GPipelineFactory::remove(p);
    mc_point();
    if (tp) { ok(tp->destroy(), "pool destroy"); delete tp; }
    mc_explore(0);
}
MC_SCENARIO(fail_destroy_unique, 1, 1, 2, 2) { failDestroy(false); }
MC_SCENARIO(fail_destroy_shared, 1, 1, 2, 2) { failDestroy(true); }
// process() == init + runs + destroy
MC_SCENARIO(process_fail, 1, 1, 2, 2) {
    VT_WORLD
    auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(2)); p->setGEngineType(engine(mc_choose(3, "engine")));
    static const unsigned *G[] = { DIAMOND, CHAIN2, PAR }; build(p, 4, G[mc_choose(3, "graph")]);
    W->checkDeps = false; W->act[mc_choose(4, "bad")] = ERR; W->newRun();
    mc_explore(1); W->active.set(1); auto s = p->process(2); W->active.set(0); mc_explore(0);
    MC_ASSERT(s.isErr(), "process() with a failing element returned code %d", s.getCode());
    mc_explore(1); mc_point(); mc_explore(0);
    GPipelineFactory::remove(p);
}
// elements of a region inside
class VRegion : public GRegion {};
MC_SCENARIO(fail_region, 1, 1, 2, 2) {
    VT_WORLD
    auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(3));
    GElementPtr r = nullptr, x = nullptr; W->n = 4; GElementPtrArr ch;
    bool par = mc_choose(2, "shape");
    for (int i = 0; i < 3; i++) { auto *v = p->createGNode<VNode>(par || !i ? GNodeInfo(std::string("c")) : GNodeInfo({ ch[0] }, "c")); v->vid = i; ch.push_back(v); }
    r = p->createGGroup<VRegion>(ch); ok(p->registerGElement<VRegion>(&r), "region");
    ok(p->registerGElement<VNode>(&x), "x"); static_cast<VNode *>(x)->vid = 3;
    ok(p->init(), "init"); W->checkDeps = false; int bad = mc_choose(4, "bad"); W->act[bad] = ERR;
    mc_explore(1); auto s = runOnce(p); MC_ASSERT(s.isErr(), "run() with a failing element returned code %d", s.getCode());
    mc_point(); W->act[bad] = OK; s = runOnce(p); mc_explore(0); ok(s, "second run"); allRan();
    ok(p->destroy(), "destroy"); GPipelineFactory::remove(p);
}
