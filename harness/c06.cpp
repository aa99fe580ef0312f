// C06: init / run / destroy life cycle against a reference model; order of init; rejected calls have no effect.
#include "common.h"
#include <sstream>
VT_MAIN
using namespace vt;

static std::vector<int> order; static bool destroying;
class LNode : public GNode { public: int vid = -1; CStatus ini, des;
    CStatus init() override { W->inits[vid]++; order.push_back(vid); return ini; }
    CStatus run() override { return body(vid); }
    CStatus destroy() override { W->dests[vid]++; order.push_back(vid); return des; } };
class DAspect : public GAspect {}; class DDaemon : public GDaemon { public: CVoid daemonTask(GDaemonParamPtr) override {} };
class DEvent : public GEvent { public: CVoid trigger(GEventParamPtr) override {} }; class DStage : public GStage {};
struct EP : public GElementParam { void clone(CGraph::GPassedParam *) override {} };

// the reference model of a pipeline's life
struct Model { bool in = false; int n = 0; long ini[MAXN] = {}, run[MAXN] = {}, des[MAXN] = {};
    void init() { in = true; for (int i = 0; i < n; i++) ini[i]++; } void runs(long k) { for (int i = 0; i < n; i++) run[i] += k; } void destroy() { in = false; for (int i = 0; i < n; i++) des[i]++; } };
static void agree(const Model &m, const char *op) {
    for (int i = 0; i < m.n; i++) {
        MC_ASSERT(W->inits[i] == m.ini[i], "after %s: init() of element %d was called %ld times, expected %ld", op, i, W->inits[i], m.ini[i]);
        MC_ASSERT(W->beg[i].peek() == m.run[i] && W->fin[i].peek() == m.run[i], "after %s: element %d executed %ld times, expected %ld", op, i, W->beg[i].peek(), m.run[i]);
        MC_ASSERT(W->dests[i] == m.des[i], "after %s: destroy() of element %d was called %ld times, expected %ld", op, i, W->dests[i], m.des[i]);
    }
}
// returns 0 ok, 1 rejected (error status or exception)
template<class F> static int attempt(F f) { try { CStatus s; s += f(); return s.isErr(); } catch (const CException &) { return 1; } }
static std::vector<GElementPtr> el;
static CStatus reg(GPipelinePtr p, Model &m) {
    GElementPtr e = nullptr; GElementPtrSet d; if (!el.empty()) d.insert(el.back());
    auto s = p->registerGElement<LNode>(&e, d, "n" + std::to_string(m.n));
    if (s.isOK()) { static_cast<LNode *>(e)->vid = m.n; W->pre[m.n] = m.n ? 1u << (m.n - 1) : 0; m.n++; W->n = m.n; el.push_back(e); }
    return s;
}
enum { NCONF = 22 };
// configuration: accepted exactly while not initialised
static CStatus config(GPipelinePtr p, int k) {
    auto *e = el[0];
    switch (k) {
        case 0: p->setGEngineType(GEngineType::DYNAMIC); break;
        case 1: p->setUniqueThreadPoolConfig(cfg(1)); break;
        case 2: e->setLoop(1); break;
        case 3: e->setName("n0"); break;
        case 4: e->setLevel(0); break;
        case 5: e->setVisible(true); break;
        case 6: e->setBindingIndex(CGRAPH_DEFAULT_BINDING_INDEX); break;
        case 7: e->setTimeout(0); break;
        case 8: e->setMacro(false); break;
        case 9: return e->addDependGElements({ e });
        case 10: p->addGAspect<DAspect>(); break;
        case 11: { static int n = 0; p->addGEvent<DEvent>("e" + std::to_string(n++)); break; }
        case 12: { static int n = 0; p->addGStage<DStage>("s" + std::to_string(n++), 1); break; }
        case 13: p->getMaxPara(); break;
        case 14: p->trim(); break;
        case 15: p->createGNode<LNode>(GNodeInfo(std::string("orphan")))->vid = 20; break;
        case 16: { auto f = p->asyncProcess(0, std::launch::deferred); if (f.valid()) { } break; }
        case 17: { EP ep; e->addEParam("k", &ep); break; }
        case 18: { return p->makeSerial().isOK() ? CStatus() : CStatus("no"); }
        case 19: return p->createGGroup<GCluster>({}) ? CStatus() : CStatus("no");
        case 20: (*el[0]) > el.back(); break;      // no effect: the dependency exists, or is itself
        case 21: { static UThreadPoolPtr none = nullptr; p->setSharedThreadPool(none); break; }
    }
    return CStatus();
}
// used exactly while initialised
static CStatus control(GPipelinePtr p, int k) {
    switch (k) {
        case 0: return p->cancel();
        case 1: return p->suspend();
        case 2: return p->resume();
    }
    return CStatus();
}
static void step(GPipelinePtr p, Model &m, int op, int sub) {
    static const char *N[] = { "init", "run", "destroy", "process(2)", "register", "configuration", "control", "asyncRun", "asyncProcess(2)", "process(0)" };
    int r = 0; bool want = false;
    switch (op) {
        case 0: want = m.in; r = attempt([&] { return p->init(); }); if (!want) m.init(); break;
        case 1: want = !m.in; W->newRun(); r = attempt([&] { return p->run(); }); if (!want) m.runs(1); break;
        case 2: want = !m.in; r = attempt([&] { return p->destroy(); }); if (!want) m.destroy(); break;
        case 3: case 8: case 9: { int k = op == 9 ? 0 : 2; want = m.in; for (auto &l : W->loops) l = k; W->newRun(); W->checkDeps = false;
            r = attempt([&] { if (op == 8) return p->asyncProcess(2).get(); return p->process(k); });
            for (auto &l : W->loops) l = 1; W->checkDeps = true; if (!want) { m.init(); m.runs(k); m.destroy(); } break; }
        case 4: want = m.in; r = attempt([&] { return reg(p, m); }); break;
        case 5: want = m.in; r = attempt([&] { return config(p, sub); }); break;
        case 6: want = !m.in; r = attempt([&] { return control(p, sub); }); break;
        case 7: want = !m.in; W->newRun(); r = attempt([&] { return p->asyncRun().get(); }); if (!want) m.runs(1); break;
    }
    MC_ASSERT((r != 0) == want, "%s (%d) while %s was %s", N[op], sub, m.in == (op == 0 && !want) ? "in this state" : m.in ? "initialised" : "not initialised", r ? "rejected" : "accepted");
    agree(m, N[op]);
}
static void begin(Model &m, GPipelinePtr &p, int threads, int nodes) {
    el.clear(); order.clear(); W->checkActive = false;
    p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(threads));
    for (int i = 0; i < nodes; i++) ok(reg(p, m), "register");
}
static void sequences(int depth) {
    VT_WORLD Model m; GPipelinePtr p; begin(m, p, 1, 2);
    for (int i = 0; i < depth; i++) step(p, m, mc_choose(10, "op"), 1);
    GPipelineFactory::remove(p);
}
MC_SCENARIO(sequences4, 0, 0, 0, 0) { sequences(4); }
MC_SCENARIO(sequences6, -1, 0, 0, 0) { sequences(6); }
// every configuration / control call in every state, then a full cycle that shows it had no effect on the elements
MC_SCENARIO(rejected_calls, 0, 0, 0, 0) {
    VT_WORLD Model m; GPipelinePtr p; begin(m, p, 1, 2); int pre = mc_choose(6, "prefix"), c = mc_choose(2, "kind");
    static const int PRE[6][4] = { { -1 }, { 0, -1 }, { 0, 1, -1 }, { 0, 1, 2, -1 }, { 3, -1 }, { 0, 2, 0, -1 } };
    for (int i = 0; i < 4 && PRE[pre][i] >= 0; i++) step(p, m, PRE[pre][i], 0);
    if (c == 0) { int k = mc_choose(NCONF, "config"); if (k == 18 || k == 21) { if (!m.in) mc_discard(); } step(p, m, 5, k); } else step(p, m, 6, mc_choose(3, "control"));
    if (!m.in) step(p, m, 0, 0);
    step(p, m, 1, 0); step(p, m, 1, 0); step(p, m, 2, 0);
    GPipelineFactory::remove(p);
}
// members of groups refuse configuration while initialised like any other element, in every life, and take it in between
MC_SCENARIO(member_calls, 0, 0, 0, 0) {
    VT_WORLD W->checkActive = false; order.clear(); W->checkDeps = false; auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(3)); W->n = 2; GElementPtrArr e; for (int i = 0; i < 2; i++) { auto *x = p->createGNode<LNode>(GNodeInfo("n0")); x->vid = i; e.push_back(x); }
    class VC : public GCondition { CIndex choose() override { return 0; } }; int kind = mc_choose(5, "group"), deep = mc_choose(3, "around"); GElementPtr g = nullptr, t = nullptr;
    switch (kind) { case 0: g = p->createGGroup<GCluster>(e); break; case 1: g = p->createGGroup<GRegion>(e); break; case 2: g = p->createGGroup<VC>(e); W->loops[1] = 0; break; case 3: g = p->createGGroup<GMultiCondition<GMultiConditionType::SERIAL>>(e); W->loops[0] = W->loops[1] = 0; break; default: g = p->createGGroup<GMultiCondition<GMultiConditionType::PARALLEL>>(e); W->loops[0] = W->loops[1] = 0; }
    if (deep) t = p->createGGroup<GCluster>({ g }); else t = p->createGGroup<GRegion>({ g }); if (deep == 2) t = p->createGGroup<GRegion>({ t }); if (deep == 1) ok(p->registerGElement<GCluster>(&t), "register"); else ok(p->registerGElement<GRegion>(&t), "register");
    int m = mc_choose(3, "member"); el = { m < 2 ? e[m] : g }; static const int K[] = { 2, 3, 4, 5, 6, 7, 9, 17, 20 }; int k = K[mc_choose(9, "call")], ran = mc_choose(2, "after a run"), lives = 1 + mc_choose(2, "lives");
    auto run = [&] { W->newRun(); ok(p->run(), "run"); allRan(); };
    for (int l = 0; l < lives; l++) { ok(p->init(), "init"); if (ran) run(); if (k != 20) MC_ASSERT(attempt([&] { return config(p, k); }), "configuration %d of member %d was accepted while initialised", k, m); else attempt([&] { return config(p, k); }); run(); ok(p->destroy(), "destroy"); if (k != 20) MC_ASSERT(!attempt([&] { return config(p, k); }), "configuration %d of member %d was refused after destroy()", k, m); }
    ok(p->init(), "init"); run(); ok(p->destroy(), "destroy"); GPipelineFactory::remove(p);
}
// process(n) is n runs; every n and engine, several graph sizes
MC_SCENARIO(process_counts, 1, 1, 2, 2) {
    VT_WORLD Model m; GPipelinePtr p; begin(m, p, 1 + mc_choose(2, "threads"), 1 + mc_choose(3, "nodes")); p->setGEngineType(engine(mc_choose(3, "engine")));
    int n = mc_choose(4, "n"), rounds = 1 + mc_choose(2, "rounds"); bool as = mc_choose(2, "async"); W->checkDeps = false; for (auto &l : W->loops) l = -1;
    for (int r = 0; r < rounds; r++) { mc_explore(1); auto s = as ? p->asyncProcess(n).get() : p->process(n); mc_explore(0); ok(s, "process"); m.init(); m.runs(n); m.destroy(); agree(m, "process"); }
    GPipelineFactory::remove(p);
}
// asyncRun: the future is the run
MC_SCENARIO(async_run, 1, 1, 2, 2) {
    VT_WORLD Model m; GPipelinePtr p; begin(m, p, 2, 3); p->setGEngineType(engine(mc_choose(3, "engine")));
    ok(p->init(), "init"); m.init(); mc_explore(1);
    for (int r = 0; r < 2; r++) { W->newRun(); auto f = p->asyncRun(); mc_point(); auto s = f.get(); ok(s, "asyncRun"); m.runs(1); for (int i = 0; i < 3; i++) MC_ASSERT(W->fin[i].get() == m.run[i], "the future of asyncRun() was ready with element %d executed %ld times", i, W->fin[i].peek()); }
    mc_explore(0); ok(p->destroy(), "destroy"); GPipelineFactory::remove(p);
}
// levels: lower level first, for init and destroy, whatever the order of registration and of addresses, also when changed between cycles
static void levels(bool region) {
    VT_WORLD W->checkActive = false; order.clear(); const int n = 4; auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(region ? 2 : 1));
    GElementPtrArr e(n, nullptr); int lv[n]; W->n = n;
    if (region) { for (int i = 0; i < n; i++) { e[i] = p->createGNode<LNode>(GNodeInfo(std::string("c"))); static_cast<LNode *>(e[i])->vid = i; } }
    else for (int i = 0; i < n; i++) { ok(p->registerGElement<LNode>(&e[i]), "register"); static_cast<LNode *>(e[i])->vid = i; }
    auto set = [&] { for (int i = 0; i < n; i++) { lv[i] = mc_choose(3, "level") - 1; e[i]->setLevel(lv[i]); } };
    auto sorted = [&](const char *what) { MC_ASSERT((int)order.size() == n, "%s of %d elements called %d times", what, n, (int)order.size()); for (int i = 1; i < n; i++) MC_ASSERT(lv[order[i - 1]] <= lv[order[i]], "%s of element %d (level %d) was called before that of element %d (level %d)", what, order[i - 1], lv[order[i - 1]], order[i], lv[order[i]]); order.clear(); };
    bool late = mc_choose(2, "set after registration or grouping");
    if (!region || !late) set();
    if (region) { class VR : public GRegion {}; GElementPtr g = p->createGGroup<VR>(e); ok(p->registerGElement<VR>(&g), "region"); if (late) set(); }
    ok(p->init(), "init"); sorted("init"); W->newRun(); ok(p->run(), "run"); ok(p->destroy(), "destroy"); sorted("destroy");
    if (!region && late) { set(); ok(p->init(), "init"); sorted("init"); W->newRun(); ok(p->run(), "run"); allRan(); ok(p->destroy(), "destroy"); sorted("destroy"); }
    GPipelineFactory::remove(p);
}
MC_SCENARIO(levels_pipeline, 0, 0, 0, 0) { levels(false); }
MC_SCENARIO(levels_region, 0, 0, 0, 0) { levels(true); }
// failing init: reported, nothing executes, run and destroy are refused
MC_SCENARIO(failing_init, 0, 0, 0, 0) {
    VT_WORLD Model m; GPipelinePtr p; begin(m, p, 1, 3); int bad = mc_choose(3, "bad"); static_cast<LNode *>(el[bad])->ini = CStatus(-7, "noinit"); bool proc = mc_choose(2, "process"); p->setGEngineType(engine(mc_choose(3, "engine")));
    auto s = proc ? p->process(2) : p->init();
    MC_ASSERT(s.getCode() == -7 && s.getInfo() == "noinit", "a failing init gave [%d] %s", s.getCode(), s.getInfo().c_str());
    MC_ASSERT(W->inits[bad] == 1, "init of the failing element called %ld times", W->inits[bad]); for (int i = 0; i < 3; i++) MC_ASSERT(W->inits[i] <= 1, "init called twice");
    MC_ASSERT(attempt([&] { return p->run(); }) == 1, "run() accepted after a failed init"); MC_ASSERT(attempt([&] { return p->destroy(); }) == 1, "destroy() accepted after a failed init");
    for (int i = 0; i < 3; i++) MC_ASSERT(W->beg[i].peek() == 0, "element %d executed after a failed init", i);
    GPipelineFactory::remove(p);
}
MC_SCENARIO(failing_destroy, 0, 0, 0, 0) {
    VT_WORLD Model m; GPipelinePtr p; begin(m, p, 1, 3); int bad = mc_choose(3, "bad"); static_cast<LNode *>(el[bad])->des = CStatus(-8, "nodestroy"); bool proc = mc_choose(2, "process"); W->checkDeps = false; W->loops[0] = W->loops[1] = W->loops[2] = -1;
    CStatus s; if (proc) s += p->process(2); else { ok(p->init(), "init"); ok(p->run(), "run"); s += p->destroy(); }
    MC_ASSERT(s.getCode() == -8 && s.getInfo() == "nodestroy", "a failing destroy gave [%d] %s", s.getCode(), s.getInfo().c_str());
    MC_ASSERT(W->dests[bad] == 1, "destroy of the failing element called %ld times", W->dests[bad]);
    GPipelineFactory::remove(p);
}
// failures of init and destroy in graphs with groups, as an error or an exception: what was initialised is destroyed, the pipeline is not initialised and can be initialised again
class CCluster : public GCluster {}; class CRegion : public GRegion {}; class CMulti : public GMultiCondition<GMultiConditionType::PARALLEL> {};
static CStatus crash(int v) { if (v == 2) CGRAPH_THROW_EXCEPTION("thrown") return v ? CStatus(-7, "failed") : CStatus(); }
class FNode : public LNode { public: int fi = 0, fd = 0; CBool isMatch() override { return true; }
    CStatus init() override { LNode::init(); return crash(fi); } CStatus destroy() override { LNode::destroy(); return crash(fd); } };
static void lifecycle(bool inInit) {
    VT_WORLD W->checkDeps = false; order.clear(); auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(2)); p->setGEngineType(engine(mc_choose(3, "engine")));
    std::vector<FNode *> f; int shape = mc_choose(5, "shape"); W->n = 4;
    GElementPtr e[4] = {}; auto top = [&](int i, GElementPtrSet d) { ok(p->registerGElement<FNode>(&e[i], d, "n" + std::to_string(i)), "register"); };
    if (shape == 0) { for (int i = 0; i < 4; i++) top(i, i ? GElementPtrSet{ e[i - 1] } : GElementPtrSet{}); }
    else {
        for (int i = 1; i < 3; i++) e[i] = p->createGNode<FNode>(GNodeInfo("n" + std::to_string(i)));
        top(0, {}); GElementPtr g; GElementPtrArr ch{ e[1], e[2] }; CStatus s;
        if (shape == 1) { g = p->createGGroup<CCluster>(ch); s = p->registerGElement<CCluster>(&g, { e[0] }); }
        if (shape == 2) { g = p->createGGroup<CRegion>(ch); s = p->registerGElement<CRegion>(&g, { e[0] }); }
        if (shape == 3) { g = p->createGGroup<CMulti>(ch); s = p->registerGElement<CMulti>(&g, { e[0] }); }
        if (shape == 4) { GElementPtr r = p->createGGroup<CRegion>(GElementPtrArr{ e[1] }); g = p->createGGroup<CCluster>(GElementPtrArr{ r, e[2] }); s = p->registerGElement<CCluster>(&g, { e[0] }); }
        ok(s, "register"); top(3, { g });
    }
    for (int i = 0; i < 4; i++) { auto *x = static_cast<FNode *>(e[i]); x->vid = i; f.push_back(x); }
    int bad = mc_choose(4, "bad"), how = 1 + mc_choose(2, "how"), bad2 = mc_choose(4, "bad too"); bool process = mc_choose(2, "process");
    for (int b : { bad, bad2 }) (inInit ? f[b]->fi : f[b]->fd) = how;
    CStatus s; auto call = [&](int what) { try { s = CStatus(); s += what == 0 ? p->init() : what == 1 ? p->destroy() : p->process(1); } catch (const CException &x) { s = CStatus(internal::STATUS_CRASH, x.what()); } };
    if (process) { W->newRun(); W->active.set(1); call(2); W->active.set(0); } else { call(0); if (!inInit) { ok(s, "init"); ok(runOnce(p), "run"); call(1); } }
    MC_ASSERT(how == 2 ? s.isCrash() : s.getCode() == -7, "%s with a failing element returned [%d] %s", inInit ? "init" : "destroy", s.getCode(), s.getInfo().c_str());
    for (int i = 0; i < 4; i++) {
        bool b = inInit && (i == bad || i == bad2);
        MC_ASSERT(W->inits[i] <= 1 && W->dests[i] == (b ? 0 : W->inits[i]), "element %d was initialised %ld and destroyed %ld times", i, W->inits[i], W->dests[i]);
        if (!inInit) MC_ASSERT(W->dests[i] == 1, "destroy of element %d was called %ld times", i, W->dests[i]); else MC_ASSERT(W->beg[i].peek() == 0, "element %d executed after a failed init", i);
    }
    MC_ASSERT(attempt([&] { return p->run(); }) == 1 && attempt([&] { return p->destroy(); }) == 1, "run() or destroy() accepted by a pipeline that is not initialised");
    if (!inInit) MC_ASSERT(mc_live_threads() == 0, "threads are left after destroy()");
    for (auto *x : f) x->fi = x->fd = 0;
    for (int i = 0; i < 4; i++) W->inits[i] = W->dests[i] = 0;
    ok(p->init(), "init() after one that failed"); ok(runOnce(p), "run"); allRan(); ok(p->destroy(), "destroy");
    for (int i = 0; i < 4; i++) MC_ASSERT(W->inits[i] == 1 && W->dests[i] == 1, "element %d was initialised %ld and destroyed %ld times the next time", i, W->inits[i], W->dests[i]);
    GPipelineFactory::remove(p); MC_ASSERT(mc_live_threads() == 0, "threads are left");
}
MC_SCENARIO(init_again, 0, 0, 1, 1) { lifecycle(true); }
MC_SCENARIO(destroy_all, 0, 0, 1, 1) { lifecycle(false); }
// a graph with a cycle is refused by init, whatever the engine
MC_SCENARIO(cycles, 0, 0, 0, 0) {
    VT_WORLD Model m; el.clear(); W->checkActive = false; auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(1)); p->setGEngineType(engine(mc_choose(3, "engine"))); const int n = 3;
    std::vector<GElementPtr> e(n, nullptr); for (int i = 0; i < n; i++) { ok(p->registerGElement<LNode>(&e[i]), "register"); static_cast<LNode *>(e[i])->vid = i; }
    W->n = n; int g = mc_choose(64, "digraph"); bool a[n][n] = {}; int bit = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) a[i][j] = g >> bit++ & 1;
    for (int i = 0; i < n; i++) { GElementPtrSet d; for (int j = 0; j < n; j++) if (a[j][i]) { d.insert(e[j]); W->pre[i] |= 1u << j; } ok(e[i]->addDependGElements(d), "addDepend"); }
    bool r[n][n]; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] = a[i][j]; for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (r[i][k] && r[k][j]) r[i][j] = true;
    bool cyc = r[0][0] || r[1][1] || r[2][2]; CStatus s = p->init();
    MC_ASSERT(s.isErr() == cyc, "init() of %s graph %d returned %d", cyc ? "a cyclic" : "an acyclic", g, s.getCode());
    if (cyc) { for (int i = 0; i < n; i++) MC_ASSERT(W->inits[i] == 0, "elements of a cyclic graph initialised"); MC_ASSERT(attempt([&] { return p->run(); }) == 1, "run accepted"); }
    else { W->newRun(); ok(p->run(), "run"); allRan(); ok(p->destroy(), "destroy"); }
    GPipelineFactory::remove(p);
}
// every kind of group and adapter: children are initialised and destroyed exactly once per cycle
class A1 : public GCluster {}; class A2 : public GRegion {}; class A3 : public GCondition { CIndex choose() override { return 0; } }; class A4 : public GMultiCondition<GMultiConditionType::SERIAL> {}; class A5 : public GMultiCondition<GMultiConditionType::PARALLEL> {};
class A6 : public GSome { CSize getWaitNum() override { return 1; } }; class A7 : public GMutable { CStatus reshape(GElementPtrArr &a) override { (*a[0])--; (*a[1])--; return CStatus(); } };
template<class T> static GElementPtr group(GPipelinePtr p, const GElementPtrArr &ch) { GElementPtr g = p->createGGroup<T>(ch); return g; }
MC_SCENARIO(group_children, 0, 0, 1, 1) {
    VT_WORLD W->checkActive = false; W->checkDeps = false; for (auto &l : W->loops) l = -1; auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(3));
    auto leaf = [&](int id) { auto *v = p->createGNode<LNode>(GNodeInfo(std::string("c"))); v->vid = id; return v; };
    auto mk = [&](int k, const GElementPtrArr &c) -> GElementPtr { switch (k) { case 0: return group<A1>(p, c); case 1: return group<A2>(p, c); case 2: return group<A3>(p, c); case 3: return group<A4>(p, c); case 4: return group<A5>(p, c); case 5: return group<A6>(p, c); default: return group<A7>(p, c); } };
    auto rg = [&](int k, GElementPtr *g) { switch (k) { case 0: return p->registerGElement<A1>(g); case 1: return p->registerGElement<A2>(g); case 2: return p->registerGElement<A3>(g); case 3: return p->registerGElement<A4>(g); case 4: return p->registerGElement<A5>(g); case 5: return p->registerGElement<A6>(g); default: return p->registerGElement<A7>(g); } };
    int outer = mc_choose(7, "outer"), inner = mc_choose(7, "inner"); GElementPtrArr in = { leaf(0), leaf(1) }; GElementPtr gi = mk(inner, in);
    GElementPtr go = mk(outer, { gi, leaf(2) }); ok(rg(outer, &go), "register"); GFunctionPtr f = nullptr; ok(p->registerGElement<GFunction>(&f, { go }), "function");
    f->setFunction(CFunctionType::INIT, [] { W->inits[3]++; return CStatus(); })->setFunction(CFunctionType::DESTROY, [] { W->dests[3]++; return CStatus(); });
    bool run = mc_choose(2, "run"); if (run && (outer == 5 || inner == 5)) mc_discard();
    for (int c = 1; c <= 2; c++) {
        mc_explore(1); ok(p->init(), "init"); for (int i = 0; i < 4; i++) MC_ASSERT(W->inits[i] == c && W->dests[i] == c - 1, "cycle %d: init of element %d was called %ld times", c, i, W->inits[i]);
        if (run) ok(p->run(), "run");
        ok(p->destroy(), "destroy"); mc_explore(0); for (int i = 0; i < 4; i++) MC_ASSERT(W->inits[i] == c && W->dests[i] == c, "cycle %d: destroy of element %d was called %ld times", c, i, W->dests[i]);
    }
    GPipelineFactory::remove(p);
}
// a parameter, event, stage or element that cannot be initialised: whatever had been initialised is destroyed, once, and the next init() starts afresh
static long pi[8], pd[8]; static unsigned pfail; static int pcrash;
static CStatus pini(int i) { if (pfail >> i & 1) { if (pcrash && i >= 6) CGRAPH_THROW_EXCEPTION("part" + std::to_string(i)) return CStatus(-20 - i, "part" + std::to_string(i)); } pi[i]++; return CStatus(); }
static CStatus pdes(int i) { pd[i]++; MC_ASSERT(pd[i] <= pi[i], "part %d was destroyed %ld times after %ld initialisations", i, pd[i], pi[i]); return CStatus(); }
template<int I> struct PParam : public GParam { CStatus init() override { return pini(I); } CStatus destroy() override { return pdes(I); } };
template<int I> struct PEvent : public GEvent { CStatus init() override { return pini(I); } CStatus destroy() override { return pdes(I); } CVoid trigger(GEventParamPtr) override {} };
template<int I> struct PStage : public GStage { CStatus init() override { return pini(I); } CStatus destroy() override { return pdes(I); } };
template<int I> struct PNode : public GNode { CStatus init() override { return pini(I); } CStatus destroy() override { return pdes(I); } CStatus run() override { W->beg[I].add(1); return CStatus(); } };
MC_SCENARIO(parts_fail, 0, 0, 1, 1) {
    VT_WORLD auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(2)); for (int i = 0; i < 8; i++) pi[i] = pd[i] = 0; int bad = mc_choose(8, "bad"), bad2 = mc_choose(8, "bad too"); pfail = 1u << bad | 1u << bad2; pcrash = mc_choose(2, "crash"); bool process = mc_choose(2, "process"), daemon = mc_choose(2, "daemon");
    ok(p->createGParam<PParam<0>>("a"), "param"); ok(p->createGParam<PParam<1>>("b"), "param"); p->addGEvent<PEvent<2>>("a"); p->addGEvent<PEvent<3>>("b"); p->addGStage<PStage<4>>("a", 1); p->addGStage<PStage<5>>("b", 1); GElementPtr x = nullptr, y = nullptr; ok(p->registerGElement<PNode<6>>(&x), "register"); ok(p->registerGElement<PNode<7>>(&y, { x }), "register"); if (daemon) p->addGDaemon<DDaemon>(100);
    for (int c = 0; c < 2; c++) { CStatus s; mc_explore(1); try { s += process ? p->process(1) : p->init(); } catch (const CException &e) { s = CStatus(internal::STATUS_CRASH, e.what()); } mc_explore(0); bool named = false; for (int i = 0; i < 8; i++) if (pfail >> i & 1) named |= s.getInfo().find("part" + std::to_string(i)) != std::string::npos; MC_ASSERT(s.isErr() && named, "parts %x cannot be initialised, init() returned [%d] %s", pfail, s.getCode(), s.getInfo().c_str());
        for (int i = 0; i < 8; i++) MC_ASSERT(pi[i] == pd[i], "part %d was initialised %ld and destroyed %ld times although init() failed", i, pi[i], pd[i]); MC_ASSERT(W->beg[6].peek() + W->beg[7].peek() == 0, "executed"); MC_ASSERT(attempt([&] { return p->run(); }) == 1 && attempt([&] { return p->destroy(); }) == 1, "run() or destroy() accepted by a pipeline that is not initialised"); }
    pfail = 0; for (auto &v : pi) v = 0; for (auto &v : pd) v = 0; ok(p->init(), "init() after one that failed"); for (int i = 0; i < 8; i++) MC_ASSERT(pi[i] == 1 && pd[i] == 0, "part %d was initialised %ld times", i, pi[i]); mc_explore(1); ok(p->run(), "run"); mc_explore(0); MC_ASSERT(W->beg[6].peek() == 1 && W->beg[7].peek() == 1, "executed"); ok(p->destroy(), "destroy"); for (int i = 0; i < 8; i++) MC_ASSERT(pd[i] == 1, "part %d was destroyed %ld times", i, pd[i]); GPipelineFactory::remove(p); MC_ASSERT(mc_live_threads() == 0, "threads are left");
}
// parts whose destroy() fails or throws: every part is destroyed all the same, once; destroy() names one of the failures; the pipeline can be used again
static CStatus pfails(int i) { pd[i]++; MC_ASSERT(pd[i] <= pi[i], "part %d was destroyed %ld times after %ld initialisations", i, pd[i], pi[i]); if (pfail >> i & 1) { if (pcrash && i >= 6) CGRAPH_THROW_EXCEPTION("part" + std::to_string(i)) return CStatus(-20 - i, "part" + std::to_string(i)); } return CStatus(); }
template<int I> struct QParam : public GParam { CStatus init() override { pi[I]++; return CStatus(); } CStatus destroy() override { return pfails(I); } };
template<int I> struct QEvent : public GEvent { CStatus init() override { pi[I]++; return CStatus(); } CStatus destroy() override { return pfails(I); } CVoid trigger(GEventParamPtr) override {} };
template<int I> struct QStage : public GStage { CStatus init() override { pi[I]++; return CStatus(); } CStatus destroy() override { return pfails(I); } };
template<int I> struct QNode : public GNode { CStatus init() override { pi[I]++; return CStatus(); } CStatus destroy() override { return pfails(I); } CStatus run() override { W->beg[I].add(1); return CStatus(); } };
MC_SCENARIO(parts_destroy_fail, 0, 0, 1, 1) {
    VT_WORLD auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(2)); for (int i = 0; i < 8; i++) pi[i] = pd[i] = 0; int bad = mc_choose(8, "bad"), bad2 = mc_choose(8, "bad too"); unsigned mask = 1u << bad | 1u << bad2; pcrash = mc_choose(2, "crash"); bool process = mc_choose(2, "process"), daemon = mc_choose(2, "daemon"); pfail = 0;
    ok(p->createGParam<QParam<0>>("a"), "param"); ok(p->createGParam<QParam<1>>("b"), "param"); p->addGEvent<QEvent<2>>("a"); p->addGEvent<QEvent<3>>("b"); p->addGStage<QStage<4>>("a", 1); p->addGStage<QStage<5>>("b", 1); GElementPtr x = nullptr, y = nullptr; ok(p->registerGElement<QNode<6>>(&x), "register"); ok(p->registerGElement<QNode<7>>(&y, { x }), "register"); if (daemon) p->addGDaemon<DDaemon>(100);
    for (int c = 1; c <= 2; c++) { CStatus s; pfail = c == 1 ? mask : 0; mc_explore(1); try { if (process) s += p->process(1); else { ok(p->init(), "init"); ok(p->run(), "run"); s += p->destroy(); } } catch (const CException &e) { s = CStatus(internal::STATUS_CRASH, e.what()); } mc_explore(0);
        bool named = false; for (int i = 0; i < 8; i++) if (pfail >> i & 1) named |= s.getInfo().find("part" + std::to_string(i)) != std::string::npos; if (c == 1) MC_ASSERT(s.isErr() && named, "the destroy() of parts %x failed, destroy() returned [%d] %s", mask, s.getCode(), s.getInfo().c_str()); else ok(s, "the life after one whose end failed");
        for (int i = 0; i < 8; i++) MC_ASSERT(pi[i] == c && pd[i] == c, "part %d was initialised %ld and destroyed %ld times in %d lives of the pipeline", i, pi[i], pd[i], c); MC_ASSERT(W->beg[6].peek() == c && W->beg[7].peek() == c, "executed"); MC_ASSERT(mc_live_threads() == 0, "threads are left after destroy()"); MC_ASSERT(attempt([&] { return p->run(); }) == 1 && attempt([&] { return p->destroy(); }) == 1, "run() or destroy() accepted by a pipeline that is not initialised"); }
    GPipelineFactory::remove(p);
}
