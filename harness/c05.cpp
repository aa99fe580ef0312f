// C05: exceptions thrown by callbacks become the element's result; enterCrashed is called once; the pipeline stays usable.
#include "common.h"
VT_MAIN
using namespace vt;

enum { FAILS = 64, IN_RUN = 1, IN_INIT = 2, IN_DESTROY = 4, IN_HOLD = 8, IN_BEGIN = 16, IN_FINISH = 32 };
static int where[MAXN], kth[MAXN], cnt[MAXN];
static mc::Var entered[MAXN];      // enterCrashed calls of the element's aspect
static long entered0[MAXN]; static bool aspects;
static void boom(int id) { CGRAPH_THROW_EXCEPTION("thr" + std::to_string(id)) }
template<class B> class X : public B {      // a node whose callbacks may throw
public:
    int vid = -1;
    CStatus init() override { W->inits[vid]++; if (where[vid] & IN_INIT) boom(vid); return CStatus(); }
    CStatus destroy() override { W->dests[vid]++; if (where[vid] & IN_DESTROY) boom(vid); return CStatus(); }
    CStatus run() override {
        enter(vid); mc_point();
        bool t = (where[vid] & IN_RUN) && cnt[vid]++ == kth[vid];
        leave(vid);
        if (t) boom(vid);
        return where[vid] & FAILS ? CStatus(-70 - vid, "err") : CStatus();
    }
    CBool isHold() override { if (where[vid] & IN_HOLD) boom(vid); return false; }
};
class XNode : public X<GNode> {};
class XAspect : public GAspect {
public:
    int id() { return std::stoi(getName().substr(1)); }
    CStatus beginRun() override { if (where[id()] & IN_BEGIN) boom(id()); return CStatus(); }
    CVoid finishRun(const CStatus &) override { if (where[id()] & IN_FINISH) boom(id()); }
    CVoid enterCrashed() override { entered[id()].add(1); }
};
static void reset() { for (int i = 0; i < MAXN; i++) { where[i] = kth[i] = cnt[i] = 0; entered[i].v = 0; } }
static void again() { for (int i = 0; i < MAXN; i++) { where[i] = 0; cnt[i] = 0; entered0[i] = entered[i].peek(); } }
static XNode *node(GElementPtr e, int id) { auto *x = static_cast<XNode *>(e); x->vid = id; return x; }

static void crashedOnce(int bad, const CStatus &s, const char *what = "run") {
    if (aspects) for (int i = 0; i < W->n; i++) MC_ASSERT(entered[i].peek() - entered0[i] == (i == bad), "enterCrashed of element %d was called %ld times although element %d threw once", i, entered[i].peek() - entered0[i], bad);
    MC_ASSERT(s.isErr(), "%s() returned %d although an element threw", what, s.getCode());
    MC_ASSERT(s.isCrash() && s.getInfo().find("thr" + std::to_string(bad)) != std::string::npos, "%s() reported [%d] %s", what, s.getCode(), s.getInfo().c_str());
}
// run() once and compare with the expected effect of element `bad` throwing (or none: -1)
static void runBad(GPipelinePtr p, int bad) {
    W->checkFailed = true; W->checkDeps = true;
    if (bad >= 0) { W->checkDeps = false; W->act[bad] = THROW; }
    mc_explore(1); auto s = runOnce(p); mc_explore(0);
    if (bad < 0) { ok(s, "run without an exception"); allRan(); return; }
    crashedOnce(bad, s);
    for (int i = 0; i < W->n; i++) if (closure(W->n, W->pre, i) >> bad & 1) MC_ASSERT(W->beg[i].peek() == W->base[i], "element %d executed although its dependency %d crashed", i, bad);
}
static GPipelinePtr make(int n, const unsigned *pre, int eng, UThreadPoolConfig c, bool asp, int loopOf = -1, int loop = 1) {
    reset(); aspects = asp;
    auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(c); p->setGEngineType(engine(eng));
    GElementPtrArr e(n, nullptr); W->n = n;
    for (int i = 0; i < n; i++) {
        GElementPtrSet d; W->pre[i] = pre[i];
        for (int j = 0; j < i; j++) if (pre[i] >> j & 1) d.insert(e[j]);
        ok(p->registerGElement<XNode>(&e[i], d, "n" + std::to_string(i), i == loopOf ? loop : 1), "register");
        node(e[i], i);
        if (i == loopOf) W->loops[i] = loop;
    }
    if (aspects) p->addGAspect<XAspect>();
    return p;
}
static void done(GPipelinePtr p) { ok(p->destroy(), "destroy"); GPipelineFactory::remove(p); }
static void fullCycle(GPipelinePtr p, int bad) {
    ok(p->init(), "init"); runBad(p, bad);
    again(); for (auto &a : W->act) a = OK; W->checkFailed = false; W->checkDeps = true;
    mc_explore(1); auto s = runOnce(p); mc_explore(0); ok(s, "the run after a crash"); allRan();
    for (int i = 0; i < W->n; i++) MC_ASSERT(entered[i].peek() == entered0[i], "enterCrashed called in a run without an exception");
    done(p);
}
static const unsigned DIAMOND[] = { 0, 1, 1, 6 }, PAR[] = { 0, 0, 0, 0 }, CHAIN[] = { 0, 1, 2, 4 }, BIP[] = { 0, 0, 3, 3 };
static const unsigned *G[] = { DIAMOND, PAR, CHAIN, BIP };

MC_SCENARIO(all_dags3, 1, 1, 2, 2) {
    VT_WORLD unsigned pre[8]; int k = mc_choose(dagCount(3), "dag"); dag(3, k, pre);
    auto p = make(3, pre, mc_choose(3, "engine"), cfg(2), mc_choose(2, "aspects"));
    int bad = mc_choose(3, "bad"); where[bad] = IN_RUN; fullCycle(p, bad);
}
MC_SCENARIO(all_dags4, -1, 0, 1, 1) {
    VT_WORLD unsigned pre[8]; int k = mc_choose(dagCount(4), "dag"); dag(4, k, pre);
    auto p = make(4, pre, mc_choose(3, "engine"), cfg(2), false);
    int bad = mc_choose(4, "bad"); where[bad] = IN_RUN; fullCycle(p, bad);
}
MC_SCENARIO(shapes4, 1, 1, 2, 2) {
    VT_WORLD auto p = make(4, G[mc_choose(4, "graph")], mc_choose(3, "engine"), cfg(1 + mc_choose(2, "threads")), false);
    int bad = mc_choose(4, "bad"); where[bad] = IN_RUN; fullCycle(p, bad);
}
// exceptions from the hook that asks for another round, and from aspects
MC_SCENARIO(other_callbacks, 1, 1, 2, 2) {
    static const int PL[] = { IN_HOLD, IN_BEGIN, IN_FINISH };
    VT_WORLD auto p = make(3, G[mc_choose(3, "graph")], mc_choose(3, "engine"), cfg(2), true);
    int bad = mc_choose(3, "bad"); where[bad] = PL[mc_choose(3, "callback")];
    if (where[bad] == IN_BEGIN) W->loops[bad] = -1;
    ok(p->init(), "init"); runBad(p, bad);
    if (where[bad] == IN_BEGIN) { MC_ASSERT(W->beg[bad].peek() == 0, "an element whose beginRun threw executed"); W->loops[bad] = 1; }
    again(); for (auto &a : W->act) a = OK; W->checkDeps = true; W->checkFailed = false;
    mc_explore(1); auto s = runOnce(p); mc_explore(0); ok(s, "the run after a crash"); allRan(); done(p);
}
// an execution that has returned an error already: the exception is the result nevertheless
MC_SCENARIO(after_error, 1, 1, 2, 2) {
    VT_WORLD auto p = make(3, G[mc_choose(3, "graph")], mc_choose(3, "engine"), cfg(2), true); int bad = mc_choose(3, "bad"); where[bad] = FAILS | (mc_choose(2, "callback") ? IN_HOLD : IN_FINISH); fullCycle(p, bad);
}
// the exception ends the loop of the element in which it is thrown
MC_SCENARIO(loops, 1, 1, 2, 2) {
    VT_WORLD int l = 2 + mc_choose(2, "loop"); auto p = make(3, G[mc_choose(3, "graph")], mc_choose(3, "engine"), cfg(2), mc_choose(2, "aspects"), 0, l);
    where[0] = IN_RUN; kth[0] = mc_choose(l, "kth"); W->loops[0] = l;
    ok(p->init(), "init"); runBad(p, 0);
    MC_ASSERT(W->beg[0].peek() == kth[0] + 1, "a looping element that threw in execution %d executed %ld times", kth[0] + 1, W->beg[0].peek());
    W->loops[0] = l; again(); for (auto &a : W->act) a = OK; W->checkDeps = true; W->checkFailed = false;
    mc_explore(1); auto s = runOnce(p); mc_explore(0); ok(s, "the run after a crash"); allRan(); done(p);
}
// init and destroy
MC_SCENARIO(lifecycle_callbacks, 0, 0, 1, 1) {
    VT_WORLD auto p = make(3, G[mc_choose(3, "graph")], mc_choose(3, "engine"), cfg(2), mc_choose(2, "aspects"));
    int bad = mc_choose(3, "bad"); bool ini = mc_choose(2, "where"); where[bad] = ini ? IN_INIT : IN_DESTROY;
    CStatus s; mc_explore(1);
    auto call = [&](int what) { try { s = CStatus(); s += what == 0 ? p->init() : what == 1 ? p->destroy() : p->process(2); } catch (const CException &e) { s = CStatus(internal::STATUS_CRASH, e.what()); } };
    call(0); if (!ini) { ok(s, "init"); call(1); }
    mc_explore(0);
    crashedOnce(bad, s, ini ? "init" : "destroy");
    if (ini) { auto r = p->run(); MC_ASSERT(r.isErr(), "run() after a failed init returned %d", r.getCode()); for (int i = 0; i < 3; i++) MC_ASSERT(W->beg[i].peek() == 0, "element %d executed after a failed init", i); }
    GPipelineFactory::remove(p);
}
// groups: exceptions of children and of the group's own decision callback
class PCluster : public GCluster {}; class PRegion : public GRegion {};
class PCond : public GCondition { public: int vid = 4; CIndex choose() override { if (where[4] & IN_RUN) boom(4); return 1; } };
class MNode : public X<GNode> { public: CBool isMatch() override { return true; } };
class PMultiS : public GMultiCondition<GMultiConditionType::SERIAL> {}; class PMultiP : public GMultiCondition<GMultiConditionType::PARALLEL> {};
MC_SCENARIO(groups, 1, 1, 2, 2) {
    VT_WORLD reset(); aspects = false; auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(3)); p->setGEngineType(engine(mc_choose(3, "engine")));
    GElementPtrArr ch; for (int i = 0; i < 2; i++) { auto *m = p->createGNode<MNode>(GNodeInfo("n" + std::to_string(i))); m->vid = i; ch.push_back(m); }
    GElementPtr g = nullptr, x = nullptr, y = nullptr; int kind = mc_choose(6, "group"); CStatus s;
    switch (kind) {
        case 0: g = p->createGGroup<PCluster>(ch); s = p->registerGElement<PCluster>(&g); break;
        case 1: case 2: { auto *r = p->createGGroup<PRegion>(ch); if (kind == 2) r->setGEngineType(GEngineType::STATIC); g = r; s = p->registerGElement<PRegion>(&g); break; }
        case 3: g = p->createGGroup<PCond>(ch); s = p->registerGElement<PCond>(&g); break;
        case 4: g = p->createGGroup<PMultiS>(ch); s = p->registerGElement<PMultiS>(&g); break;
        default: g = p->createGGroup<PMultiP>(ch); s = p->registerGElement<PMultiP>(&g);
    }
    ok(s, "register group");
    ok(p->registerGElement<XNode>(&x, { g }, "n2"), "x"); node(x, 2); ok(p->registerGElement<XNode>(&y, {}, "n3"), "y"); node(y, 3);
    W->n = 5; W->pre[2] = kind == 3 ? 2 : 3; if (kind == 3) W->loops[0] = 0;
    bool own = kind == 3 && mc_choose(2, "own"); int bad = own ? 4 : 1; where[bad] = IN_RUN;
    ok(p->init(), "init");
    W->checkDeps = false; W->act[bad] = THROW; W->checkFailed = !own;
    mc_explore(1); s = runOnce(p); mc_explore(0);
    crashedOnce(bad, s);
    MC_ASSERT(W->beg[2].peek() == 0, "the successor of a crashed group executed");
    again(); for (auto &a : W->act) a = OK; W->checkFailed = false; W->checkDeps = true; W->loops[4] = 0;
    mc_explore(1); s = runOnce(p); mc_explore(0); ok(s, "the run after a crash"); allRan(); done(p);
}
// elements with a time limit run elsewhere: the exception still arrives
MC_SCENARIO(async_element, 1, 1, 2, 2) {
    VT_WORLD auto p = GPipelineFactory::create(); reset(); aspects = mc_choose(2, "aspects"); p->setUniqueThreadPoolConfig(cfg(3)); p->setGEngineType(engine(mc_choose(3, "engine")));
    GElementPtr a = nullptr, b = nullptr; W->n = 2; for (auto &x : W->pre) x = 0; W->pre[1] = 1;
    ok(p->registerGElement<XNode>(&a, {}, "n0"), "a"); ok(p->registerGElement<XNode>(&b, { a }, "n1"), "b"); node(a, 0); node(b, 1); if (aspects) p->addGAspect<XAspect>();
    int bad = mc_choose(2, "bad"); (bad ? b : a)->setTimeout(100000, GElementTimeoutStrategy::AS_ERROR); where[bad] = IN_RUN; fullCycle(p, bad);
}
// asyncRun / asyncProcess / process hand the exception over
MC_SCENARIO(futures, 1, 1, 2, 2) {
    VT_WORLD auto p = make(3, G[mc_choose(3, "graph")], mc_choose(3, "engine"), cfg(2), false); int bad = mc_choose(3, "bad"); where[bad] = IN_RUN; int api = mc_choose(3, "api");
    W->checkDeps = false; W->checkFailed = false; W->checkActive = false; CStatus s;
    if (api == 0) ok(p->init(), "init");
    mc_explore(1);
    try { if (api == 0) { auto f = p->asyncRun(); s += f.get(); } else if (api == 1) { W->loops[0] = W->loops[1] = W->loops[2] = -1; auto f = p->asyncProcess(2); s += f.get(); } else { W->loops[0] = W->loops[1] = W->loops[2] = -1; s += p->process(2); } }
    catch (const CException &e) { s = CStatus(internal::STATUS_CRASH, e.what()); }
    mc_explore(0);
    crashedOnce(bad, s, "asyncRun/asyncProcess/process");
    GPipelineFactory::remove(p);
}
