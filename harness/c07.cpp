// C07: loop counts and holds.
#include "tree.h"
VT_TREE_MAIN
using namespace vt;

static int hold[MAXN], bound_[MAXN], failAt[MAXN]; static mc::Var asked[MAXN], begun[MAXN], ended[MAXN]; static long total[MAXN];
class HNode : public GNode { public: int vid = -1; long cur = 0;
    CStatus run() override { body(vid); long k = total[vid]++; return k == failAt[vid] ? CStatus(-50 - vid, "hold") : CStatus(); }
    CBool isHold() override { asked[vid].add(1); if (cur < hold[vid]) { cur++; return true; } cur = 0; return false; } };
class HAspect : public GAspect { public: int id() { return std::stoi(getName().substr(1)); }
    CStatus beginRun() override { int i = id(); begun[i].add(1); MC_ASSERT(W->beg[i].get() == W->fin[i].get(), "beginRun of element %d in the middle of an execution", i); return CStatus(); }
    CVoid finishRun(const CStatus &) override { int i = id(); ended[i].add(1); MC_ASSERT(W->beg[i].get() == W->fin[i].get(), "finishRun of element %d in the middle of an execution", i); } };
static void zero() { for (int i = 0; i < MAXN; i++) { hold[i] = 0; failAt[i] = -1; total[i] = 0; asked[i].v = begun[i].v = ended[i].v = 0; } }
static const unsigned CHAIN[] = { 0, 1, 2 }, FAN[] = { 0, 1, 1 }, JOIN[] = { 0, 0, 3 }, PAR[] = { 0, 0, 0 };
static const unsigned *G[] = { CHAIN, FAN, JOIN, PAR };
// how the loop count is given: at registration, by setLoop, by operator *
static std::vector<GElementPtr> make(GPipelinePtr p, const unsigned *pre, const int *loops, int how) {
    std::vector<GElementPtr> e(3, nullptr); W->n = 3;
    for (int i = 0; i < 3; i++) {
        GElementPtrSet d; W->pre[i] = pre[i]; for (int j = 0; j < i; j++) if (pre[i] >> j & 1) d.insert(e[j]);
        ok(p->registerGElement<HNode>(&e[i], d, "n" + std::to_string(i), how == 0 ? loops[i] : 1), "register");
        static_cast<HNode *>(e[i])->vid = i;
        if (how == 1) e[i]->setLoop(loops[i]); else if (how == 2) (*e[i]) * loops[i];
        MC_ASSERT((int)e[i]->getLoop() == loops[i], "loop of element %d is %d, set to %d", i, (int)e[i]->getLoop(), loops[i]);
        e[i]->addGAspect<HAspect>();
    }
    return e;
}
static void counts(const int *loops, int runs) {
    for (int i = 0; i < 3; i++) {
        MC_ASSERT(asked[i].peek() == W->beg[i].peek(), "isHold of element %d was asked %ld times for %ld executions", i, asked[i].peek(), W->beg[i].peek());
        MC_ASSERT(begun[i].peek() == (long)loops[i] * runs && ended[i].peek() == (long)loops[i] * runs, "beginRun/finishRun of element %d were called %ld/%ld times for %d iterations", i, begun[i].peek(), ended[i].peek(), loops[i] * runs);
    }
}
static void one(int eng, const unsigned *g, const int *loops, const int *h, int how, int threads, int runs) {
    zero(); auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(threads)); p->setGEngineType(engine(eng));
    make(p, g, loops, how);
    for (int i = 0; i < 3; i++) { hold[i] = h[i]; W->loops[i] = (long)loops[i] * (1 + h[i]); }
    ok(p->init(), "init");
    for (int r = 0; r < runs; r++) { mc_explore(1); auto s = runOnce(p); mc_explore(0); ok(s, "run"); allRan(); }
    counts(loops, runs);
    ok(p->destroy(), "destroy"); GPipelineFactory::remove(p);
}
// one element with every loop count and number of holds
MC_SCENARIO(one_element, 1, 1, 2, 2) {
    VT_WORLD int loops[3] = { 1, 1, 1 }, h[3] = { 0, 0, 0 }; int x = mc_choose(3, "element"); loops[x] = mc_choose(4, "loop"); h[x] = mc_choose(3, "hold");
    one(mc_choose(3, "engine"), G[mc_choose(4, "graph")], loops, h, mc_choose(3, "how"), 1 + mc_choose(2, "threads"), 1);
}
// every element loops and holds
MC_SCENARIO(all_elements, 0, 0, 1, 1) {
    VT_WORLD int loops[3], h[3]; for (int i = 0; i < 3; i++) { loops[i] = mc_choose(3, "loop"); h[i] = mc_choose(2, "hold"); }
    one(mc_choose(3, "engine"), G[mc_choose(4, "graph")], loops, h, 0, 2, 2);
}
MC_SCENARIO(deep, 2, 2, 3, 3) { VT_WORLD int loops[3] = { 2, 1, 2 }, h[3] = { 1, 0, 0 }; one(0, G[1 + mc_choose(2, "graph")], loops, h, 0, 2, 1); }
// an error ends the loop and the holding at once
MC_SCENARIO(error_ends_loop, 1, 1, 2, 2) {
    VT_WORLD zero(); int loops[3] = { 1, 1, 1 }; int x = mc_choose(3, "element"); loops[x] = 1 + mc_choose(3, "loop"); int h = mc_choose(2, "hold");
    const unsigned *g = G[mc_choose(4, "graph")]; auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(2)); p->setGEngineType(engine(mc_choose(3, "engine")));
    make(p, g, loops, 0); hold[x] = h; W->loops[x] = (long)loops[x] * (1 + h); failAt[x] = mc_choose(loops[x] * (1 + h), "failing execution");
    ok(p->init(), "init"); mc_explore(1); auto s = runOnce(p); mc_explore(0);
    MC_ASSERT(s.getCode() == -50 - x, "run returned %d", s.getCode());
    MC_ASSERT(total[x] == failAt[x] + 1, "element %d executed %ld times although execution %d failed", x, total[x], failAt[x] + 1);
    for (int i = 0; i < 3; i++) MC_ASSERT(asked[i].peek() == W->beg[i].peek() && begun[i].peek() == ended[i].peek() && begun[i].peek() == (i == x ? failAt[x] / (1 + h) + 1 : W->beg[i].peek()), "isHold of element %d was asked %ld times for %ld executions, beginRun/finishRun were called %ld/%ld times", i, asked[i].peek(), W->beg[i].peek(), begun[i].peek(), ended[i].peek());
    for (int i = 0; i < 3; i++) if (closure(3, g, i) >> x & 1) MC_ASSERT(W->beg[i].peek() == 0, "a successor of a failing looping element executed");
    failAt[x] = -1; static_cast<void>(0); ok(p->destroy(), "destroy"); GPipelineFactory::remove(p);
}
// groups with a loop: every leaf executes the product of the loop counts above it, iteration after iteration
MC_SCENARIO(group_loops, 1, 1, 2, 2) {
    VT_WORLD Tree t; long lg = mc_choose(4, "group loop"); Kind k = mc_choose(2, "kind") ? REGION : CLUSTER; int eng = mc_choose(3, "region engine");
    auto *a = t.mk(LEAF, {}, mc_choose(3, "loop a")); auto *b = t.mk(LEAF, {}, 1); auto *c = t.mk(LEAF);
    auto *g = t.mk(k, { a, b }, lg); g->eng = eng; if (k == REGION) g->dep[1] = mc_choose(2, "edge"); else if (eng) mc_discard();
    t.root = t.mk(ROOT, { g, c }); t.root->dep[1] = 1;
    auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(2)); realize(p, t); ok(p->init(), "init");
    for (int r = 0; r < 2; r++) { mc_explore(1); auto s = runOnce(p); mc_explore(0); ok(s, "run"); allRan(); }
    ok(p->destroy(), "destroy"); GPipelineFactory::remove(p); T = nullptr;
}
