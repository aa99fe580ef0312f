// C35: a wrong description of a graph is refused and leaves no trace; a pipeline frees what it was given.
#include "common.h"
#include <sstream>
VT_MAIN
using namespace vt;

static long made, freed, foreign;
struct Counted { Counted() { made++; } ~Counted() { freed++; } };
class RNode : public GNode { public: int vid = -1; Counted c; CStatus run() override { if (vid < 0) { foreign++; mc_fail("an element whose registration was refused executes"); } return body(vid); } };
class RCluster : public GCluster { Counted c; }; class RRegion : public GRegion { Counted c; }; class ROther : public GCluster { Counted c; };
class RCond : public GCondition { Counted c; CIndex choose() override { return 0; } };
class RFunc : public GFunction { Counted c; }; class RFence : public GFence { Counted c; };
class RTNode : public GTemplateNode<int, int> { public: Counted c; RTNode(int a, int b) { vid = a + b; } int vid; CStatus run() override { return CStatus(); } };
class RAspect : public GAspect { Counted c; }; class REvent : public GEvent { Counted c; CVoid trigger(GEventParamPtr) override {} }; class RDaemon : public GDaemon { Counted c; CVoid daemonTask(GDaemonParamPtr) override {} }; class RStage : public GStage { Counted c; };
struct RParam : GParam { Counted c; CVoid reset(const CStatus &) override {} }; struct RAParam : GAspectParam { Counted c; CVoid clone(GPassedParamPtr) override {} }; struct REParam : GEventParam { Counted c; CVoid clone(GPassedParamPtr) override {} }; struct RDParam : GDaemonParam { Counted c; CVoid clone(GPassedParamPtr) override {} }; struct RElParam : GElementParam { Counted c; CVoid clone(GPassedParamPtr) override {} }; struct RSParam : GStageParam { Counted c; CVoid clone(GPassedParamPtr) override {} };

struct P { GPipelinePtr p; GElementPtr e[3] = {}, in[2] = {}, g = nullptr; int kind; };
static P make() {       // e0 -> group(in0, in1) -> e1, e0 -> e2
    made = freed = foreign = 0; P r; r.p = GPipelineFactory::create(); r.p->setUniqueThreadPoolConfig(cfg(2)); r.p->setGEngineType(engine(mc_choose(3, "engine"))); r.kind = mc_choose(2, "group"); W->n = 5;
    auto id = [](GElementPtr e, int i) { static_cast<RNode *>(e)->vid = i; };
    ok(r.p->registerGElement<RNode>(&r.e[0], {}, "e0"), "register"); id(r.e[0], 0);
    for (int i = 0; i < 2; i++) { r.in[i] = r.p->createGNode<RNode>(GNodeInfo("in" + std::to_string(i))); id(r.in[i], 1 + i); W->pre[1 + i] = 1; }
    GElementPtrArr ch{ r.in[0], r.in[1] };
    if (r.kind) { r.g = r.p->createGGroup<RRegion>(ch); ok(r.p->registerGElement<RRegion>(&r.g, { r.e[0] }, "g"), "register"); } else { W->pre[2] |= 2; r.g = r.p->createGGroup<RCluster>(ch); ok(r.p->registerGElement<RCluster>(&r.g, { r.e[0] }, "g"), "register"); }
    ok(r.p->registerGElement<RNode>(&r.e[1], { r.g }, "e1"), "register"); id(r.e[1], 3); W->pre[3] = 7;
    ok(r.p->registerGElement<RNode>(&r.e[2], { r.e[0] }, "e2"), "register"); id(r.e[2], 4); W->pre[4] = 1;
    return r;
}
static std::string draw(GPipelinePtr p) { std::ostringstream o; ok(p->dump(o), "dump"); return o.str(); }
static void works(P &r) { ok(r.p->init(), "init"); mc_explore(1); auto s = runOnce(r.p); mc_explore(0); ok(s, "run"); allRan(); ok(r.p->destroy(), "destroy"); }
static void end(P &r) { GPipelineFactory::remove(r.p); MC_ASSERT(made == freed, "%ld objects of the pipeline were created and %ld destroyed", made, freed); }
// a call that must be refused, with an error or an exception
template<class F> static bool refused(F f) { try { CStatus s; s += f(); return s.isErr(); } catch (const CException &) { return true; } }
enum { NBAD = 25 };
static CStatus wrong(P &r, P &o, int k) {
    auto *p = r.p; GElementPtr x = nullptr; GNodePtr n = nullptr; RNode *self = nullptr; (void)n; (void)self;
    switch (k) {
    case 0: return p->registerGElement<RNode>(&x, { nullptr }, "x");
    case 1: return p->registerGElement<RNode>(&x, { r.e[0], r.in[0] }, "x");            // depends on the inside of a group
    case 2: return p->registerGElement<RNode>(&x, { r.in[1], r.e[1], r.e[2] }, "x");
    case 3: return r.kind ? p->registerGElement<RRegion>(&r.g, {}, "again") : p->registerGElement<RCluster>(&r.g, {}, "again");
    case 4: return p->registerGElement<ROther>(&r.g, {}, "again");                      // registered, and of another type
    case 5: p->createGNode<RNode>(GNodeInfo({ r.e[0], r.in[0] }, "x", 1)); return CStatus();
    case 6: p->createGNode<RNode>(GNodeInfo({ r.e[0], nullptr }, "x", 1)); return CStatus();
    case 7: p->createGGroup<RCluster>({ r.in[0], nullptr }); return CStatus();
    case 8: p->createGGroup<RCluster>({}, { nullptr, r.e[0] }); return CStatus();
    case 9: p->createGGroup<RCluster>({}, { r.in[0], r.e[0], r.e[1] }); return CStatus();
    case 10: return r.e[2]->addDependGElements({ r.e[1], r.in[0] });
    case 11: return r.in[0]->addDependGElements({ r.e[0], r.e[2] });
    case 12: return r.e[0]->addDependGElements({ nullptr });
    case 13: return p->registerGNode(&r.e[0], {}, "again");
    case 14: return p->registerGNode(&r.in[0], {}, "again");
    case 15: return p->registerGNode(&r.g, {}, "again");
    case 16: return p->registerGGroup(&r.e[0], {}, "again");
    case 17: return p->registerGGroup(&r.g, {}, "again");
    case 18: *r.e[2] > r.in[0]; return CStatus();
    case 19: p->registerGNode<RNode>({ r.e[0], r.in[0] }, "x"); return CStatus();
    case 20: { GTemplateNodePtr<int, int> t = nullptr; return p->registerGElement<RTNode>(&t, { r.e[0], r.in[0] }, 1, 2); }
    case 21: { GFencePtr f = nullptr; return p->registerGElement<RFence>(&f, { r.e[0], r.in[0] }, "f"); }
    case 22: return p->registerGElement<RCluster>(&x, { r.e[0] }, "x");                 // a group that was not created
    case 23: return p->registerGNode(&x, {}, "x");
    case 24: return p->registerGGroup(&x, {}, "x");
    }
    return CStatus();
}
static void refusals(int n) {
    VT_WORLD auto r = make(); P o; auto before = draw(r.p); (void)o; long m = made - freed;
    { refused([&] { return wrong(r, o, 0); }); }        // buffers of the error path
    for (int i = 0; i < n; i++) {
        int k = mc_choose(NBAD, "wrong call"); long live = mc_live_bytes();
        MC_ASSERT(refused([&] { return wrong(r, o, k); }), "the wrong call %d was accepted", k);
        MC_ASSERT(made - freed == m, "the refused call %d left %ld objects behind", k, made - freed - m);
        MC_ASSERT(draw(r.p) == before, "the refused call %d changed the graph", k);
        MC_ASSERT((long)mc_live_bytes() == live, "the refused call %d left %ld bytes behind", k, (long)mc_live_bytes() - live);
    }
    works(r); end(r);
}
MC_SCENARIO(refusals, 0, 0, 1, 1) { refusals(1); }
MC_SCENARIO(two_refusals, 0, 0, 0, 0) { refusals(2); }
// a group that was refused leaves its members free for another one
MC_SCENARIO(members_after_refusal, 0, 0, 1, 1) {
    VT_WORLD auto r = make(); int k = mc_choose(2, "how"); auto *a = r.p->createGNode<RNode>(GNodeInfo("a")); a->vid = 5; W->n = 6;
    bool no = refused([&] { if (k) r.p->createGGroup<RCluster>({ a }, { r.e[0], r.in[0] }); else r.p->createGGroup<RCluster>({ a, nullptr }); return CStatus(); }); MC_ASSERT(no, "accepted");
    GElementPtr x = a; if (mc_choose(2, "then")) { W->pre[5] = 0; ok(r.p->registerGNode(&x, {}, "a"), "register the member of the refused group"); } else { GElementPtr g = r.p->createGGroup<RCluster>({ a }); ok(r.p->registerGElement<RCluster>(&g, { r.e[1] }, "g2"), "register another group"); W->pre[5] = 8; }
    works(r); end(r);
}
// dependencies between pipelines, and on elements that are in no pipeline, are errors at the latest of init(), or have no effect on the other one
MC_SCENARIO(foreign_dependency, 0, 0, 1, 1) {
    VT_WORLD made = freed = 0; W->checkActive = false; W->checkDeps = false; int what = mc_choose(6, "what"), eng = mc_choose(3, "engine");
    auto *p = GPipelineFactory::create(), *q = GPipelineFactory::create(); for (auto *z : { p, q }) { z->setUniqueThreadPoolConfig(cfg(1)); z->setGEngineType(engine(eng)); }
    GElementPtr a = nullptr, b = nullptr, c = nullptr; W->n = 3; ok(p->registerGElement<RNode>(&c, {}, "c"), "register"); static_cast<RNode *>(c)->vid = 2;
    if (what == 0) { a = p->createGNode<RNode>(GNodeInfo("a")); } else ok(q->registerGElement<RNode>(&a, {}, "a"), "register");
    static_cast<RNode *>(a)->vid = 0; CStatus s; try { s += p->registerGElement<RNode>(&b, what >= 3 ? GElementPtrSet{} : what == 2 ? GElementPtrSet{ c, a } : GElementPtrSet{ a }, "b"); if (what == 3) s += b->addDependGElements({ a }); if (what == 4) { *a > b; } if (what == 5) { GElementPtr d = p->createGNode<RNode>(GNodeInfo("d")); ok(d->addDependGElements({ c }), "depend"); s += a->addDependGElements({ d }); if (s.isOK()) s += p->registerGNode(&d, {}, "d"); } } catch (const CException &e) { s += CStatus(e.what()); }
    if (s.isOK()) {
        static_cast<RNode *>(b)->vid = 1; auto i = p->init(); MC_ASSERT(i.isErr(), "a pipeline whose element depends on one outside was initialised");
        MC_ASSERT(W->beg[0].peek() + W->beg[1].peek() + W->beg[2].peek() == 0, "an element executed");
        if (what) { auto j = q->init(); if (j.isOK()) { auto u = q->run(); (void)u; MC_ASSERT(W->beg[1].peek() == 0, "an element of another pipeline executed"); q->destroy(); } }
    }
    GPipelineFactory::remove(p); GPipelineFactory::remove(q); MC_ASSERT(made == freed, "%ld objects of the pipelines were created and %ld destroyed", made, freed);
}
// everything given to a pipeline is freed with it, at whatever point of its life it is removed
MC_SCENARIO(everything_freed, 0, 0, 0, 0) {
    VT_WORLD auto r = make(); int what = mc_choose(64, "what"), stage = mc_choose(6, "life"), how = mc_choose(3, "removal"); auto *p = r.p;
    RAParam ap; REParam ep; RDParam dp; RElParam el; RSParam sp; long outside = 5;
    if (what & 1) { p->addGAspect<RAspect, RAParam>({}, &ap); p->addGAspect<RAspect>({ r.e[0] }); }
    if (what & 2) { p->addGEvent<REvent, REParam>("ev", &ep); p->addGEvent<REvent>("ev2"); }
    if (what & 4) { p->addGDaemon<RDaemon, RDParam>(1000, &dp); }
    if (what & 8) { p->addGStage<RStage, RSParam>("st", 1, &sp); p->addGStage<RStage>("st2", 2); }
    if (what & 16) { r.e[0]->addEParam<RElParam>("k", &el); GFunctionPtr f = nullptr; ok(p->registerGElement<RFunc>(&f, { r.e[1] }, "f"), "register"); GTemplateNodePtr<int, int> t = nullptr; ok(p->registerGElement<RTNode>(&t, {}, 1, 2), "register"); }
    if (what & 32) { auto *x = p->createGNode<RNode>(GNodeInfo("unused")); (void)x; auto *y = p->createGNode<RNode>(GNodeInfo("unused")); y->vid = 9; p->createGGroup<RCond>({ y }); }
    class ParamNode : public GNode { public: Counted c; CStatus init() override { return createGParam<RParam>("p"); } CStatus run() override { return CStatus(); } };
    if (what & 16) { GElementPtr n = nullptr; ok(p->registerGElement<ParamNode>(&n), "register"); }
    if (stage >= 1) ok(p->init(), "init");
    if (stage >= 2) { ok(runOnce(p), "run"); }
    if (stage == 3) ok(p->destroy(), "destroy");
    if (stage == 4) { ok(p->destroy(), "destroy"); ok(p->init(), "init"); ok(runOnce(p), "run"); }
    if (stage == 5) { W->act[3] = THROW; runOnce(p); }
    if (how == 0) ok(GPipelineFactory::remove(p), "remove"); else if (how == 1) ok(GPipelineFactory::clear(), "clear"); else { GPipelineManager m; ok(m.add(p), "add"); if (stage == 1 || stage == 2 || stage >= 4) { p->destroy(); } GPipelineFactory::remove(p); }
    MC_ASSERT(made - freed == outside, "%ld objects given to the pipeline were not freed", made - freed - outside); MC_ASSERT(mc_live_threads() == 0, "threads are left");
}
// a part of a group is not registered by itself, neither before nor after its group
MC_SCENARIO(part_of_group, 0, 0, 0, 0) {
    VT_WORLD made = freed = foreign = 0; auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(2)); p->setGEngineType(engine(mc_choose(3, "engine"))); GElementPtr n = p->createGNode<RNode>(GNodeInfo("n")), m = p->createGNode<RNode>(GNodeInfo("m")); static_cast<RNode *>(n)->vid = 0; static_cast<RNode *>(m)->vid = 1; W->n = 2; bool ir = mc_choose(2, "inner region"), cond = mc_choose(2, "outer"), inner = mc_choose(2, "part"); GElementPtr i = ir ? (GElementPtr)p->createGGroup<RRegion>({ n, m }) : p->createGGroup<RCluster>({ n, m }), o = cond ? (GElementPtr)p->createGGroup<RCond>({ i }) : p->createGGroup<RCluster>({ i });
    auto wrong = [&](int way) { return refused([&]() -> CStatus { if (!inner) return p->registerGNode(&n, {}, "n"); switch (way) { case 0: return p->registerGGroup(&i, {}, "i"); default: return ir ? p->registerGElement<RRegion>(&i, {}, "i") : p->registerGElement<RCluster>(&i, {}, "i"); } }); };
    int when = mc_choose(4, "when"), way = mc_choose(2, "way"); if (when & 1) MC_ASSERT(wrong(way), "a part of a group was registered before its group"); ok(p->registerGGroup(&o, {}, "o"), "register"); if (when & 2) MC_ASSERT(wrong(way), "a part of a group was registered after its group"); ok(p->init(), "init"); auto s = runOnce(p); ok(s, "run"); allRan(); ok(p->destroy(), "destroy"); GPipelineFactory::remove(p); MC_ASSERT(made == freed, "objects are left");
}
