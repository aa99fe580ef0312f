// C04: errors reach the caller of run() and stop the dependents, and only those.
#include "common.h"
VT_MAIN
using namespace vt;

// one run with the elements of `mask` failing; what: ERR or THROW
static void failRun(GPipelinePtr p, unsigned mask, int what, unsigned warn = 0) {
    World &w = *W;
    for (int i = 0; i < w.n; i++) w.act[i] = (mask >> i & 1) ? what : (warn >> i & 1) ? WARN : OK;
    w.checkDeps = mask == 0; w.checkFailed = true;
    mc_explore(1); auto s = runOnce(p); mc_explore(0);
    if (!mask) { MC_ASSERT(s.isNotErr(), "run() without a failing element returned [%d] %s", s.getCode(), s.getInfo().c_str()); allRan(); return; }
    MC_ASSERT(s.isErr(), "run() returned code %d although an element failed", s.getCode());
    // the status is one of the failing elements that executed; nothing behind a failed element executed
    unsigned ran = 0; for (int i = 0; i < w.n; i++) if (w.beg[i].peek() > w.base[i]) ran |= 1u << i;
    MC_ASSERT(ran & mask, "run() returned [%d] %s but no failing element executed", s.getCode(), s.getInfo().c_str());
    bool match = false;
    for (int i = 0; i < w.n; i++) if ((ran & mask) >> i & 1) {
        if (what == ERR && s.getCode() == -100 - i && s.getInfo() == "err" + std::to_string(i)) match = true;
        if (what == THROW && s.isCrash() && s.getInfo().find("thr" + std::to_string(i)) != std::string::npos) match = true;
    }
    MC_ASSERT(match, "run() returned [%d] '%s', which is no status of a failed element (executed %x, failing %x)", s.getCode(), s.getInfo().c_str(), ran, mask);
    for (int i = 0; i < w.n; i++) {
        unsigned c = closure(w.n, w.pre, i);
        if (c & mask) MC_ASSERT(!(ran >> i & 1), "element %d executed although it depends on failed element(s) %x", i, c & mask);
        if (ran >> i & 1) MC_ASSERT((ran & c) == c, "element %d executed although its dependencies %x did not all execute", i, c);
    }
    mc_outcome("failing %x executed %x code %d", mask, ran, s.getCode());
}
static void scen(int n, const unsigned *pre, int eng, UThreadPoolConfig c, unsigned mask, int what, bool again) {
    auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(c); p->setGEngineType(engine(eng));
    build(p, n, pre); ok(p->init(), "init");
    failRun(p, mask, what);
    if (again) failRun(p, 0, OK);
    ok(p->destroy(), "destroy"); GPipelineFactory::remove(p);
}
static const unsigned DIAMOND[] = { 0, 1, 1, 6 };
static const unsigned PAR[] = { 0, 0, 0, 0, 0 };
static const unsigned BIPART[] = { 0, 0, 3, 3 };
static const unsigned CHAIN2[] = { 0, 1, 0, 4 };
static const unsigned CHAIN[] = { 0, 1, 2, 4 };
static const unsigned *G[] = { DIAMOND, PAR, BIPART, CHAIN2, CHAIN };

// every DAG over 4 elements, every non-empty set of failing elements, every engine; then a good run
MC_SCENARIO(all_dags4_masks, 0, 0, 1, 1) {
    VT_WORLD int eng = mc_choose(3, "engine"); unsigned mask = 1 + mc_choose(15, "mask"); int k = mc_choose(dagCount(4), "dag"); unsigned pre[8]; dag(4, k, pre);
    scen(4, pre, eng, cfg(2), mask, ERR, true);
}
MC_SCENARIO(all_dags3_masks, 1, 1, 2, 2) {
    VT_WORLD int eng = mc_choose(2, "engine"); unsigned mask = 1 + mc_choose(7, "mask"); int k = mc_choose(dagCount(3), "dag"); unsigned pre[8]; dag(3, k, pre);
    scen(3, pre, eng, cfg(2), mask, mc_choose(2, "throw") ? THROW : ERR, true);
}
MC_SCENARIO(shapes, 1, 1, 2, 2) { VT_WORLD int g = mc_choose(5, "graph"); int t = 1 + mc_choose(3, "threads"); scen(4, G[g], mc_choose(2, "engine"), cfg(t), 1u << mc_choose(4, "bad"), ERR, false); }
MC_SCENARIO(two_failures, 2, 2, 2, 3) { VT_WORLD int g = mc_choose(4, "graph"); scen(4, G[g], 0, cfg(2), mc_choose(2, "mask") ? 6 : 5, ERR, false); }
MC_SCENARIO(parallel_more_than_threads, 1, 1, 2, 2) { VT_WORLD int t = 1 + mc_choose(2, "threads"); scen(5, PAR, 0, cfg(t, mc_choose(2, "secondary")), 1u << mc_choose(5, "bad"), mc_choose(2, "throw") ? THROW : ERR, true); }
// elements that fail at the same time: the status is that of one of them
MC_SCENARIO(same_time, 2, 2, 4, 4) { VT_WORLD static const unsigned J[] = { 0, 0, 3 }; int g = mc_choose(2, "graph"); scen(g ? 3 : 2, g ? J : PAR, 0, cfg(2), 3, ERR, false); }
// non-negative codes are no errors
MC_SCENARIO(warnings, 1, 1, 2, 2) {
    VT_WORLD int g = mc_choose(5, "graph"); unsigned warn = 1u << mc_choose(4, "who");
    auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(2)); p->setGEngineType(engine(mc_choose(3, "engine")));
    build(p, 4, G[g]); ok(p->init(), "init");
    failRun(p, 0, OK, warn); failRun(p, 0, OK);
    ok(p->destroy(), "destroy"); GPipelineFactory::remove(p);
}
// an element that fails in its k-th loop stops there
class LNode : public GNode { public: int vid = 0, k = 0, n = 0; CStatus run() override { enter(vid); leave(vid); if (n++ == k) return CStatus(-100 - vid, "err" + std::to_string(vid)); return CStatus(); } };
MC_SCENARIO(loop_failure, 1, 1, 2, 2) {
    VT_WORLD auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(2)); p->setGEngineType(engine(mc_choose(3, "engine")));
    GElementPtr a = nullptr, b = nullptr, c = nullptr; W->n = 3; W->pre[1] = 1; int k = mc_choose(3, "k");
    ok(p->registerGElement<LNode>(&a, {}, "a", 3), "a"); static_cast<LNode *>(a)->k = k; W->loops[0] = 3; W->act[0] = ERR; W->checkFailed = true; W->checkDeps = false;
    ok(p->registerGElement<VNode>(&b, { a }, "b"), "b"); static_cast<VNode *>(b)->vid = 1; ok(p->registerGElement<VNode>(&c, {}, "c"), "c"); static_cast<VNode *>(c)->vid = 2;
    ok(p->init(), "init"); mc_explore(1); auto s = runOnce(p); mc_explore(0);
    MC_ASSERT(s.getCode() == -100 && s.getInfo() == "err0", "run() returned [%d] '%s'", s.getCode(), s.getInfo().c_str());
    MC_ASSERT(W->beg[0].peek() == k + 1, "the looping element executed %ld times, it failed in execution %d", W->beg[0].peek(), k + 1);
    MC_ASSERT(W->beg[1].peek() == 0, "the dependent of a failed element executed");
    ok(p->destroy(), "destroy"); GPipelineFactory::remove(p);
}
// errors inside a region and a cluster surface at run() and stop the group's successors
class VRegion : public GRegion {}; class VCluster : public GCluster {};
MC_SCENARIO(groups, 1, 1, 2, 2) {
    VT_WORLD auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(3)); p->setGEngineType(engine(mc_choose(2, "engine")));
    W->n = 5; GElementPtrArr ch; int kind = mc_choose(2, "kind"); bool par = mc_choose(2, "shape");
    for (int i = 0; i < 3; i++) { auto *v = p->createGNode<VNode>((par && !kind) || !i ? GNodeInfo(std::string("c")) : GNodeInfo({ ch[i - 1] }, "c")); v->vid = i; ch.push_back(v); if (!(par && !kind) && i) W->pre[i] = 1u << (i - 1); }
    GElementPtr r = nullptr, x = nullptr, y = nullptr;
    if (kind == 0) { r = p->createGGroup<VRegion>(ch); ok(p->registerGElement<VRegion>(&r), "region"); } else { r = p->createGGroup<VCluster>(ch); ok(p->registerGElement<VCluster>(&r), "cluster"); }
    ok(p->registerGElement<VNode>(&x, { r }), "x"); static_cast<VNode *>(x)->vid = 3; W->pre[3] = 7; ok(p->registerGElement<VNode>(&y), "y"); static_cast<VNode *>(y)->vid = 4;
    ok(p->init(), "init"); int bad = mc_choose(3, "bad");
    failRun(p, 1u << bad, mc_choose(2, "throw") ? THROW : ERR); failRun(p, 0, OK);
    ok(p->destroy(), "destroy"); GPipelineFactory::remove(p);
}
// process() returns the error too and does not run further rounds
MC_SCENARIO(process, 1, 1, 2, 2) {
    VT_WORLD auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(2)); p->setGEngineType(engine(mc_choose(3, "engine")));
    build(p, 4, G[mc_choose(5, "graph")]); int bad = mc_choose(4, "bad"); W->act[bad] = ERR; W->checkDeps = false; W->checkFailed = true; W->newRun(); W->active.set(1);
    mc_explore(1); auto s = p->process(3); mc_explore(0);
    MC_ASSERT(s.getCode() == -100 - bad, "process() returned [%d] %s", s.getCode(), s.getInfo().c_str());
    MC_ASSERT(W->beg[bad].peek() == 1, "the failing element executed %ld times", W->beg[bad].peek());
    GPipelineFactory::remove(p);
}
