// C08: clusters and regions, alone, nested, repeated, failing.
#include "tree.h"
VT_TREE_MAIN
using namespace vt;

static void life(Tree &t, int eng, int threads, int runs) {
    auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(threads)); p->setGEngineType(engine(eng));
    realize(p, t); ok(p->init(), "init");
    for (int r = 0; r < runs; r++) { mc_explore(1); auto s = runOnce(p); mc_explore(0); ok(s, "run"); allRan(); }
    ok(p->destroy(), "destroy"); GPipelineFactory::remove(p); T = nullptr;
}
// x -> group -> y, with every kind of group of three members
MC_SCENARIO(one_group, 1, 1, 2, 2) {
    VT_WORLD Tree t; auto *x = t.mk(LEAF), *a = t.mk(LEAF), *b = t.mk(LEAF), *c = t.mk(LEAF), *y = t.mk(LEAF);
    int kind = mc_choose(4, "cluster / region with each engine"); auto *g = t.mk(kind == 0 ? CLUSTER : REGION, { a, b, c });
    if (kind) { g->eng = kind - 1; unsigned pre[4]; dag(3, mc_choose(8, "dag"), pre); for (int i = 0; i < 3; i++) g->dep[i] = pre[i]; }
    t.root = t.mk(ROOT, { x, g, y }); t.root->dep[1] = 1; t.root->dep[2] = 2;
    life(t, mc_choose(3, "engine"), 2 + mc_choose(2, "threads"), 1);
}
// groups inside groups, side by side and one after the other
MC_SCENARIO(nested, 0, 0, 1, 1) {
    VT_WORLD Tree t; Kind K[] = { CLUSTER, REGION }; auto *a = t.mk(LEAF), *b = t.mk(LEAF), *c = t.mk(LEAF), *d = t.mk(LEAF), *y = t.mk(LEAF);
    Kind ki = K[mc_choose(2, "inner")], ko = K[mc_choose(2, "outer")]; auto *i = t.mk(ki, { a, b }, 1 + mc_choose(2, "inner loop")); if (ki == REGION) i->dep[1] = mc_choose(2, "inner edge");
    int pos = mc_choose(2, "position"); auto *o = pos ? t.mk(ko, { c, i, d }) : t.mk(ko, { i, c, d }); o->loop = 1 + mc_choose(2, "outer loop");
    if (ko == REGION) { int e = mc_choose(3, "outer edges"); if (e) { o->dep[1] = 1; } if (e == 2) o->dep[2] = 2; }
    t.root = t.mk(ROOT, { o, y }); t.root->dep[1] = mc_choose(2, "edge");
    int eng = mc_choose(2, "engine") ? 1 : 0; life(t, eng, 3, 1);
}
MC_SCENARIO(two_groups, 0, 0, 1, 1) {
    VT_WORLD Tree t; Kind K[] = { CLUSTER, REGION }; auto *a = t.mk(LEAF), *b = t.mk(LEAF), *c = t.mk(LEAF), *d = t.mk(LEAF), *y = t.mk(LEAF);
    Kind k1 = K[mc_choose(2, "first")], k2 = K[mc_choose(2, "second")]; auto *g = t.mk(k1, { a, b }, 1 + mc_choose(2, "loop")), *h = t.mk(k2, { c, d });
    if (k1 == REGION) g->dep[1] = mc_choose(2, "edge1"); if (k2 == REGION) { h->dep[1] = mc_choose(2, "edge2"); h->eng = mc_choose(3, "region engine"); }
    t.root = t.mk(ROOT, { g, h, y }); t.root->dep[1] = mc_choose(2, "chained"); t.root->dep[2] = 3;
    life(t, mc_choose(3, "engine"), 3, 1);
}
MC_SCENARIO(deep, 2, 2, 3, 3) {
    VT_WORLD Tree t; auto *a = t.mk(LEAF), *b = t.mk(LEAF), *c = t.mk(LEAF), *y = t.mk(LEAF); auto *g = t.mk(REGION, { a, b, c }); if (mc_choose(2, "join")) g->dep[2] = 3;
    t.root = t.mk(ROOT, { g, y }); t.root->dep[1] = 1; life(t, 0, 2 + mc_choose(2, "threads"), 1);
}
// a failing member: what comes after it does not execute, what run() returns is its error, the next run is whole again
MC_SCENARIO(failing, 0, 0, 1, 1) {
    VT_WORLD Tree t; Kind K[] = { CLUSTER, REGION }; auto *a = t.mk(LEAF), *b = t.mk(LEAF), *c = t.mk(LEAF), *d = t.mk(LEAF), *y = t.mk(LEAF);
    Kind ki = K[mc_choose(2, "inner")], ko = K[mc_choose(2, "outer")]; auto *i = t.mk(ki, { b, c }); if (ki == REGION) i->dep[1] = mc_choose(2, "edge");
    auto *o = t.mk(ko, { a, i, d }, 1 + mc_choose(2, "loop")); if (ko == REGION) { o->dep[1] = 1; o->dep[2] = mc_choose(2, "edge") * 2; o->eng = mc_choose(2, "engine"); }
    t.root = t.mk(ROOT, { o, y }); t.root->dep[1] = 1;
    auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(3)); p->setGEngineType(engine(mc_choose(3, "engine"))); realize(p, t);
    int bad = mc_choose(4, "bad"); W->act[bad] = ERR; ok(p->init(), "init");
    mc_explore(1); auto s = runOnce(p); mc_explore(0);
    MC_ASSERT(s.getCode() == -100 - bad && s.getInfo() == "err" + std::to_string(bad), "run() returned [%d] %s", s.getCode(), s.getInfo().c_str());
    MC_ASSERT(W->beg[bad].peek() == 1, "failing member %d executed %ld times", bad, W->beg[bad].peek());
    for (int v = 0; v < 5; v++) { if (v == bad) continue; if (t.rel[bad][v] == 1) MC_ASSERT(W->beg[v].peek() == 0, "leaf %d executed although leaf %d, before it, failed", v, bad); else if (t.rel[bad][v] == -1) MC_ASSERT(W->fin[v].peek() == 1, "leaf %d before the failing one executed %ld times", v, W->fin[v].peek()); else MC_ASSERT(W->beg[v].peek() <= 1, "leaf %d executed %ld times although its group failed in its first iteration", v, W->beg[v].peek()); }
    W->act[bad] = OK; mc_explore(1); s = runOnce(p); mc_explore(0); ok(s, "the run after a failure"); allRan();
    ok(p->destroy(), "destroy"); GPipelineFactory::remove(p); T = nullptr;
}
// the same with more preemptions and fewer shapes
MC_SCENARIO(nested_preempt, 1, 1, 2, 2) {
    VT_WORLD Tree t; auto *a = t.mk(LEAF), *b = t.mk(LEAF), *c = t.mk(LEAF), *y = t.mk(LEAF); int k = mc_choose(4, "kinds"); auto *i = t.mk(k & 1 ? REGION : CLUSTER, { a, b }, 2); auto *o = t.mk(k & 2 ? REGION : CLUSTER, { i, c }, 2);
    t.root = t.mk(ROOT, { o, y }); t.root->dep[1] = 1; life(t, 0, 3, 1);
}
MC_SCENARIO(failing_preempt, 1, 1, 2, 2) {
    VT_WORLD Tree t; auto *a = t.mk(LEAF), *b = t.mk(LEAF), *c = t.mk(LEAF), *y = t.mk(LEAF); auto *g = t.mk(REGION, { a, b, c }, 1 + mc_choose(2, "loop")); g->eng = mc_choose(2, "engine"); g->dep[2] = mc_choose(4, "edges"); t.root = t.mk(ROOT, { g, y }); t.root->dep[1] = 1;
    auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(2)); realize(p, t); int bad = mc_choose(3, "bad"); W->act[bad] = ERR; ok(p->init(), "init");
    mc_explore(1); auto s = runOnce(p); MC_ASSERT(s.getCode() == -100 - bad, "run returned %d", s.getCode()); MC_ASSERT(W->beg[3].peek() == 0, "successor of a failed region executed");
    for (int v = 0; v < 3; v++) if (t.rel[bad][v] == 1) MC_ASSERT(W->beg[v].peek() == 0, "leaf %d executed although leaf %d, before it, failed", v, bad);
    W->act[bad] = OK; s = runOnce(p); mc_explore(0); ok(s, "the run after a failure"); allRan(); ok(p->destroy(), "destroy"); GPipelineFactory::remove(p); T = nullptr;
}
// elements and groups made by the user (as the wrappers of other languages do) are part of the pipeline in whatever depth
static long alive; class OLeaf : public TNode { public: static GPipelinePtr stop; static int stopper; OLeaf() { alive++; } ~OLeaf() override { alive--; } CStatus run() override { auto s = TNode::run(); if (vid == stopper) ok(stop->cancel(), "cancel"); return s; } }; GPipelinePtr OLeaf::stop; int OLeaf::stopper;
template<class G> struct OGroup : public G { OGroup() { alive++; } ~OGroup() override { alive--; } };
static GElementPtr own(TN *t) {
    if (t->kind == LEAF) { auto *n = new OLeaf; n->vid = t->leaf; n->setName("l" + std::to_string(t->leaf)); if (t->loop > 1) n->setLoop(t->loop); return t->e = n; }
    GElementPtrArr ch; for (auto *c : t->ch) ch.push_back(own(c)); for (size_t i = 0; i < ch.size(); i++) { GElementPtrSet d; for (size_t j = 0; j < i; j++) if (t->dep[i] >> j & 1) d.insert(ch[j]); ok(ch[i]->addDependGElements(d), "depend"); }
    GGroupPtr g; if (t->kind == CLUSTER) { auto *x = new OGroup<TCluster>; x->t = t; g = x; } else { auto *x = new OGroup<TRegion>; x->t = t; x->setGEngineType(engine(t->eng)); g = x; } ok(g->__addGElements_4py(ch), "add"); if (t->loop > 1) g->setLoop(t->loop); return t->e = g;
}
MC_SCENARIO(from_outside, 0, 0, 1, 1) {
    VT_WORLD alive = 0; Tree t; Kind K[] = { CLUSTER, REGION }; auto *a = t.mk(LEAF), *b = t.mk(LEAF), *c = t.mk(LEAF), *y = t.mk(LEAF); int what = mc_choose(4, "what"); auto *i = t.mk(K[mc_choose(2, "inner")], { a, b }, 1 + (what == 0)); if (i->kind == REGION) { i->dep[1] = mc_choose(2, "edge"); i->eng = mc_choose(2, "engine"); } auto *o = t.mk(K[mc_choose(2, "outer")], { i, c }, 1 + (what == 1)); if (o->kind == REGION) o->dep[1] = 1; t.root = t.mk(ROOT, { o, y }); t.root->dep[1] = 1;
    auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(4)); p->setGEngineType(engine(mc_choose(3, "engine"))); t.prepare(); T = &t; OLeaf::stop = p; OLeaf::stopper = -1; auto *go = own(o), *ly = own(y); ok(p->__registerGElement_4py(go, {}, "", o->loop), "register"); ok(p->__registerGElement_4py(ly, { go }, "", 1), "register");
    if (what == 2) a->e->setTimeout(1000, GElementTimeoutStrategy::HOLD_BY_PIPELINE); for (int l = 0; l < 2; l++) { ok(p->init(), "init"); for (int v = 0; v < 4; v++) MC_ASSERT(W->inits[v] == l + 1, "leaf %d initialised %ld times", v, W->inits[v]);
        if (what == 3) { OLeaf::stopper = 0; T = nullptr; mc_explore(1); auto s = runOnce(p); mc_explore(0); ok(s, "a run that is cancelled"); MC_ASSERT(W->beg[0].peek() - W->base[0] == 1 && W->beg[2].peek() == W->base[2] && W->beg[3].peek() == W->base[3], "executed after cancel()"); OLeaf::stopper = -1; T = &t; }
        mc_explore(1); auto s = runOnce(p); mc_explore(0); ok(s, "run"); allRan(); ok(p->destroy(), "destroy"); }
    GPipelineFactory::remove(p); T = nullptr; MC_ASSERT(alive == 0, "%ld elements were not freed", alive); MC_ASSERT(mc_live_threads() == 0, "threads");
}
