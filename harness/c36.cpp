// C36: prepareRun before the first execution, checkRunResult after the last, elements that are not visible.
#include "tree.h"
VT_TREE_MAIN
using namespace vt;
enum { NONE, FAIL, BOOM };
static mc::Var prepared[MAXN], checked[MAXN], hooks[MAXN]; static int pAct[MAXN], cAct[MAXN]; static long prep0[MAXN], chk0[MAXN]; static bool loose[MAXN];
static CStatus act(int a, const char *what, int i) { if (a == BOOM) CGRAPH_THROW_EXCEPTION(what + std::to_string(i)) return a == FAIL ? CStatus(-300 - i, what + std::to_string(i)) : CStatus(); }
class PNode : public GNode { public: int vid = -1;
    CStatus init() override { W->inits[vid]++; return CStatus(); } CStatus destroy() override { W->dests[vid]++; return CStatus(); }
    CStatus prepareRun() override {
        MC_ASSERT(W->active.get() == 1, "prepareRun of element %d while no run is in progress", vid); MC_ASSERT(W->beg[vid].get() == W->base[vid], "prepareRun of element %d after an execution", vid);
        if (W->checkDeps) for (int d = 0; d < W->n; d++) if (W->pre[vid] >> d & 1) MC_ASSERT(W->fin[d].get() - W->base[d] == W->loops[d], "prepareRun of element %d before its dependency %d finished", vid, d);
        prepared[vid].add(1); mc_point(); return act(pAct[vid], "prep", vid); }
    CStatus run() override { MC_ASSERT(prepared[vid].get() - prep0[vid] >= 1, "element %d executed unprepared", vid); return body(vid); }
    CStatus checkRunResult() override {
        MC_ASSERT(W->active.get() == 1, "checkRunResult of element %d while no run is in progress", vid); long b = W->beg[vid].get(), f = W->fin[vid].get(); MC_ASSERT(b == f, "checkRunResult of element %d during an execution", vid); if (!loose[vid] && W->act[vid] == OK) MC_ASSERT(f - W->base[vid] == W->loops[vid], "checkRunResult of element %d after %ld of %ld executions", vid, f - W->base[vid], W->loops[vid]);
        if (W->checkDeps) for (int d = 0; d < W->n; d++) if (W->pre[d] >> vid & 1) MC_ASSERT(W->beg[d].get() == W->base[d], "element %d began before the result of its dependency %d was checked", d, vid);
        checked[vid].add(1); mc_point(); return act(cAct[vid], "check", vid); } };
class HAspect : public GAspect { public: int id() { return std::stoi(getName().substr(1)); } CStatus beginInit() override { hooks[id()].add(1); return CStatus(); } CStatus beginRun() override { hooks[id()].add(1); return CStatus(); } CVoid finishRun(const CStatus &) override { hooks[id()].add(1); } CStatus beginDestroy() override { hooks[id()].add(1); return CStatus(); } };
static void zero() { for (int i = 0; i < MAXN; i++) { prepared[i].v = checked[i].v = hooks[i].v = 0; pAct[i] = cAct[i] = 0; prep0[i] = chk0[i] = 0; loose[i] = false; } }
struct Pipe { GPipelinePtr p; std::vector<GElementPtr> e; int n; long cycle = 0;
    Pipe(int n, const unsigned *pre, int eng, int threads, int loopOf = -1, long loop = 1) : n(n) { zero(); p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(threads)); p->setGEngineType(engine(eng)); W->n = n; e.assign(n, nullptr);
        for (int i = 0; i < n; i++) { GElementPtrSet d; W->pre[i] = pre[i]; for (int j = 0; j < i; j++) if (pre[i] >> j & 1) d.insert(e[j]); if (i == loopOf) W->loops[i] = loop; ok(p->registerGElement<PNode>(&e[i], d, "n" + std::to_string(i), W->loops[i]), "register"); static_cast<PNode *>(e[i])->vid = i; e[i]->addGAspect<HAspect>(); } }
    void init() { for (int i = 0; i < n; i++) prep0[i] = prepared[i].peek(); cycle++; ok(p->init(), "init"); for (int i = 0; i < n; i++) MC_ASSERT(prepared[i].peek() == prep0[i], "init() called prepareRun"); }
    CStatus run() { for (int i = 0; i < n; i++) chk0[i] = checked[i].peek(); return runOnce(p); }
    // a run in which everything succeeds; want: calls of prepareRun since init
    void good(long want = 1, unsigned invisible = 0) { auto s = run(); ok(s, "run"); allRan(); for (int i = 0; i < n; i++) { bool v = !(invisible >> i & 1); MC_ASSERT(prepared[i].peek() - prep0[i] == want * v, "prepareRun of element %d was called %ld times since init(), expected %ld", i, prepared[i].peek() - prep0[i], want * v); MC_ASSERT(checked[i].peek() - chk0[i] == v, "checkRunResult of element %d was called %ld times in one run", i, checked[i].peek() - chk0[i]); } }
    void end() { ok(p->destroy(), "destroy"); } void remove() { GPipelineFactory::remove(p); } };
static const unsigned FAN[] = { 0, 1, 1 }, PAR[] = { 0, 0, 0 }, CHAIN[] = { 0, 1, 2 }, JOIN[] = { 0, 0, 3 }; static const unsigned *G[] = { FAN, PAR, CHAIN, JOIN };
// once per initialisation, in every graph
MC_SCENARIO(prepared_once, 1, 1, 2, 2) {
    VT_WORLD unsigned pre[8]; int eng = mc_choose(3, "engine"); dag(3, mc_choose(dagCount(3), "dag"), pre); int l = mc_choose(4, "looping"); Pipe q(3, pre, eng, 1 + mc_choose(2, "threads"), l - 1, 2);
    for (int c = 0; c < 2; c++) { q.init(); for (int r = 0; r < 2; r++) { mc_explore(c == 0 && r == 0); q.good(); mc_explore(0); } q.end(); } q.remove();
}
// prepareRun fails: neither the element nor its dependents execute, and it is called again in the next run
MC_SCENARIO(prepare_fails, 1, 1, 2, 2) {
    VT_WORLD int g = mc_choose(4, "graph"), x = mc_choose(3, "element"), how = 1 + mc_choose(2, "how"); Pipe q(3, G[g], mc_choose(3, "engine"), 2); q.init(); long fails = 1 + mc_choose(2, "times");
    for (long k = 0; k < fails; k++) { pAct[x] = how; W->checkDeps = false; mc_explore(k == 0); auto s = q.run(); mc_explore(0); MC_ASSERT(s.isErr() && s.getInfo().find("prep" + std::to_string(x)) != std::string::npos && (how == BOOM ? s.isCrash() : s.getCode() == -300 - x), "prepareRun of element %d failed, run() returned [%d] %s", x, s.getCode(), s.getInfo().c_str());
        MC_ASSERT(W->beg[x].peek() == 0, "element %d executed although its prepareRun failed", x); for (int i = 0; i < 3; i++) if (closure(3, G[g], i) >> x & 1) MC_ASSERT(W->beg[i].peek() == 0 && prepared[i].peek() == 0 && checked[i].peek() == 0, "a dependent of an element whose prepareRun failed executed"); MC_ASSERT(prepared[x].peek() == k + 1, "prepareRun was called %ld times in %ld runs", prepared[x].peek(), k + 1); }
    pAct[x] = 0; W->checkDeps = true; for (int r = 0; r < 2; r++) { mc_explore(r == 0); auto s = q.run(); mc_explore(0); ok(s, "the run after a failed prepareRun"); allRan(); for (int i = 0; i < 3; i++) { MC_ASSERT(prepared[i].peek() == (i == x ? fails + 1 : 1), "prepareRun of element %d was called %ld times", i, prepared[i].peek()); MC_ASSERT(checked[i].peek() - chk0[i] == 1, "checkRunResult of element %d was called %ld times", i, checked[i].peek() - chk0[i]); } } q.end(); q.remove();
}
// checkRunResult fails: so has the element
MC_SCENARIO(check_fails, 1, 1, 2, 2) {
    VT_WORLD int g = mc_choose(4, "graph"), x = mc_choose(3, "element"), how = 1 + mc_choose(2, "how"); Pipe q(3, G[g], mc_choose(3, "engine"), 2, x, 1 + mc_choose(2, "loop")); q.init(); cAct[x] = how;
    mc_explore(1); auto s = q.run(); mc_explore(0); MC_ASSERT(s.isErr() && s.getInfo().find("check" + std::to_string(x)) != std::string::npos, "checkRunResult of element %d failed, run() returned [%d] %s", x, s.getCode(), s.getInfo().c_str());
    MC_ASSERT(W->fin[x].peek() == W->loops[x] && checked[x].peek() == 1, "element %d executed %ld times, its result was checked %ld times", x, W->fin[x].peek(), checked[x].peek()); for (int i = 0; i < 3; i++) if (closure(3, G[g], i) >> x & 1) MC_ASSERT(W->beg[i].peek() == 0, "a dependent of an element whose checkRunResult failed executed");
    cAct[x] = 0; mc_explore(1); s = q.run(); mc_explore(0); ok(s, "the run after a failed checkRunResult"); allRan(); for (int i = 0; i < 3; i++) MC_ASSERT(prepared[i].peek() == 1 && checked[i].peek() - chk0[i] == 1, "prepareRun %ld, checkRunResult %ld times", prepared[i].peek(), checked[i].peek() - chk0[i]); q.end(); q.remove();
}
// members of groups with loops: prepared once, checked in every iteration
static void inGroups(bool few) {
    VT_WORLD zero(); W->n = 3; int kind = mc_choose(2, "kind"), eng = mc_choose(3, "engine"); long lg = few ? 2 : 1 + mc_choose(3, "loop"), la = few ? 1 : 1 + mc_choose(2, "member loop"); auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(3)); p->setGEngineType(engine(few ? 0 : mc_choose(2, "outer engine"))); if (few && eng > 1) mc_discard(); if (!kind && eng) mc_discard();
    std::vector<PNode *> m; for (int i = 0; i < 2; i++) { auto *n = p->createGNode<PNode>(GNodeInfo("n" + std::to_string(i), i ? 1 : la)); n->vid = i; m.push_back(n); loose[i] = true; } W->loops[0] = lg * la; W->loops[1] = lg; W->pre[2] = 3; W->checkDeps = false;
    GElementPtr g = nullptr, x = nullptr; if (kind) { GRegion *r = p->createGGroup<GRegion>({ m[0], m[1] }); r->setGEngineType(engine(eng)); if (mc_choose(2, "edge")) m[1]->addDependGElements({ m[0] }); g = r; } else g = p->createGGroup<GCluster>({ m[0], m[1] }); ok(p->registerGGroup(&g, {}, "g", lg), "register");
    ok(p->registerGElement<PNode>(&x, { g }, "n2"), "register"); static_cast<PNode *>(x)->vid = 2; long fails = mc_choose(2, "fails"); ok(p->init(), "init");
    if (fails) { int how = few ? FAIL : 1 + mc_choose(2, "how"), b = mc_choose(2, "which"); (mc_choose(2, "what") ? cAct : pAct)[b] = how; bool prep = pAct[b]; mc_explore(1); auto s = runOnce(p); mc_explore(0); MC_ASSERT(s.isErr() && s.getInfo().find((prep ? "prep" : "check") + std::to_string(b)) != std::string::npos, "run() returned [%d] %s", s.getCode(), s.getInfo().c_str()); MC_ASSERT(W->beg[2].peek() == 0, "the element after a failed group executed"); MC_ASSERT(!prep || W->beg[b].peek() == 0, "executed unprepared"); pAct[b] = cAct[b] = 0; long p0[3]; for (int i = 0; i < 3; i++) p0[i] = prepared[i].peek();
        mc_explore(1); s = runOnce(p); mc_explore(0); ok(s, "next run"); allRan(); for (int i = 0; i < 3; i++) MC_ASSERT(prepared[i].peek() == (prep && i == b ? 2 : 1), "prepareRun of element %d was called %ld times (%ld before the second run)", i, prepared[i].peek(), p0[i]); }
    else for (int r = 0; r < 2; r++) { long c0[3]; for (int i = 0; i < 3; i++) c0[i] = checked[i].peek(); mc_explore(1); auto s = runOnce(p); mc_explore(0); ok(s, "run"); allRan(); for (int i = 0; i < 3; i++) { MC_ASSERT(prepared[i].peek() == 1, "prepareRun of element %d was called %ld times", i, prepared[i].peek()); MC_ASSERT(checked[i].peek() - c0[i] == (i == 2 ? 1 : lg), "checkRunResult of element %d was called %ld times in %ld iterations", i, checked[i].peek() - c0[i], lg); } }
    ok(p->destroy(), "destroy"); GPipelineFactory::remove(p);
}
MC_SCENARIO(in_groups, 0, 0, 1, 1) { inGroups(false); }
MC_SCENARIO(in_group, 1, 1, 2, 2) { inGroups(true); }
// elements that are not visible: as if they were not there, but the order they establish stays
static void hidden(int n, const unsigned *pre, int eng, unsigned mask, unsigned mask2) {
    Pipe q(n, pre, eng, 2); long in[MAXN] = {}; for (int i = 0; i < n; i++) W->pre[i] = closure(n, pre, i);
    for (int c = 0; c < 2; c++) { unsigned m = c ? mask2 : mask; long h0[MAXN]; for (int i = 0; i < n; i++) { q.e[i]->setVisible(!(m >> i & 1)); W->loops[i] = !(m >> i & 1); in[i] += W->loops[i]; h0[i] = hooks[i].peek(); }
        q.init(); for (int r = 0; r < 2; r++) { mc_explore(!c && !r); q.good(1, m); mc_explore(0); } q.end(); for (int i = 0; i < n; i++) { MC_ASSERT(W->inits[i] == in[i] && W->dests[i] == in[i], "element %d (%s) was initialised %ld and terminated %ld times, expected %ld", i, m >> i & 1 ? "not visible" : "visible", W->inits[i], W->dests[i], in[i]); MC_ASSERT(hooks[i].peek() - h0[i] == (m >> i & 1 ? 0 : 6), "element %d: %ld hooks", i, hooks[i].peek() - h0[i]); } } q.remove();
}
MC_SCENARIO(hidden_dags3, 0, 0, 1, 1) { VT_WORLD unsigned pre[8]; int eng = mc_choose(3, "engine"); dag(3, mc_choose(dagCount(3), "dag"), pre); unsigned m = 1 + mc_choose(7, "hidden"); hidden(3, pre, eng, m, 0); }
MC_SCENARIO(hidden_one, 1, 1, 2, 2) { VT_WORLD int g = mc_choose(4, "graph"), eng = mc_choose(3, "engine"); hidden(3, G[g], eng, 1u << mc_choose(3, "hidden"), 0); }
MC_SCENARIO(hidden_dags4, 0, 0, 1, 1) { VT_WORLD unsigned pre[8]; int eng = mc_choose(3, "engine"); dag(4, mc_choose(dagCount(4), "dag"), pre); unsigned m = mc_choose(16, "hidden"); hidden(4, pre, eng, m, mc_choose(2, "then") ? 5 : 15 & ~m); }
// in groups, and groups that are not visible
MC_SCENARIO(hidden_in_groups, 1, 1, 2, 2) {
    VT_WORLD Tree t; zero(); int kind = mc_choose(3, "kind"), eng = mc_choose(3, "engine"), what = mc_choose(4, "hidden"); if (kind != 1 && eng) mc_discard(); auto *a = t.mk(LEAF), *b = t.mk(LEAF), *c = t.mk(LEAF), *d = t.mk(LEAF); auto *g = t.mk(kind == 0 ? CLUSTER : kind == 1 ? REGION : COND, { a, b }, 1 + mc_choose(2, "loop")); g->eng = eng; if (kind == 1) g->dep[1] = mc_choose(2, "edge"); if (kind == 2) g->take[mc_choose(2, "not taken")] = false; t.root = t.mk(ROOT, { c, g, d }); t.root->dep[1] = 1; t.root->dep[2] = 2;
    auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(3)); p->setGEngineType(engine(mc_choose(3, "outer engine"))); realize(p, t); TN *h = what == 0 ? a : what == 1 ? b : what == 2 ? g : c; h->e->setVisible(false); long l = h->loop; h->loop = 0; t.prepare(); ok(p->init(), "init");
    for (int r = 0; r < 2; r++) { mc_explore(r == 0); auto s = runOnce(p); mc_explore(0); ok(s, "run"); allRan(); } ok(p->destroy(), "destroy"); for (auto *x : t.leaf) { bool in = x != h && x->up != h; MC_ASSERT(W->inits[x->leaf] == in && W->dests[x->leaf] == in, "leaf %d was initialised %ld and terminated %ld times", x->leaf, W->inits[x->leaf], W->dests[x->leaf]); }
    h->loop = l; h->e->setVisible(true); t.prepare(); ok(p->init(), "init"); auto s = runOnce(p); ok(s, "run"); allRan(); ok(p->destroy(), "destroy"); GPipelineFactory::remove(p); T = nullptr;
}
