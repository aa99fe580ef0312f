// C29: what the pipeline says about its graph - parallelism, redundant edges, separation, serial execution - agrees with the graph and with how it executes.
#include "tree.h"
#include <set>
VT_TREE_MAIN
using namespace vt;
static int popc(unsigned x) { return __builtin_popcount(x); }
static void finish(GPipelinePtr p) { GPipelineFactory::remove(p); T = nullptr; }
static unsigned deps(GElementPtr x, const std::vector<GElementPtr> &e) { unsigned m = 0; auto r = x->getRelation(); for (auto *q : r.predecessors_) for (size_t j = 0; j < e.size(); j++) if (e[j] == q) m |= 1u << j; MC_ASSERT(popc(m) == (int)r.predecessors_.size(), "a dependency is there twice"); for (size_t j = 0; j < e.size(); j++) { bool s = false; for (auto *q : e[j]->getRelation().successors_) s |= q == x; MC_ASSERT(s == (m >> j & 1), "predecessors and successors disagree"); } return m; }
// the largest set of elements none of which comes before another
static int antichain(int n, const unsigned *pre) { unsigned c[8]; for (int i = 0; i < n; i++) c[i] = closure(n, pre, i); int best = 0; for (unsigned s = 0; s < 1u << n; s++) { bool good = true; for (int i = 0; i < n && good; i++) if ((s >> i & 1) && (c[i] & s)) good = false; if (good && popc(s) > best) best = popc(s); } return best; }
static void reduced(int n, const unsigned *pre, unsigned *red) { for (int i = 0; i < n; i++) { red[i] = pre[i]; for (int j = 0; j < i; j++) if (pre[i] >> j & 1) for (int k = j + 1; k < i; k++) if ((pre[i] >> k & 1) && (closure(n, pre, k) >> j & 1)) red[i] &= ~(1u << j); } }
// every graph; the elements are registered in any order of creation, so positions in the sorted set vary
static void analyse(int n, bool levels) {
    VT_WORLD auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(1)); int eng = mc_choose(2, "engine"); p->setGEngineType(engine(eng)); unsigned pre[8], red[8]; dag(n, mc_choose(dagCount(n), "dag"), pre); std::vector<GElementPtr> e; bool rev = n > 2 && !levels && mc_choose(2, "dependencies declared in reverse"); if (!rev) e = build(p, n, pre); else { unsigned none[8] = {}; e = build(p, n, none); for (int i = 0; i < n; i++) for (int j = i; j-- > 0;) if (pre[i] >> j & 1) ok(e[i]->addDependGElements({ e[j] }), "depend"); } if (levels) for (int i = 0; i < n; i++) e[i]->setLevel(mc_choose(2, "level"));
    MC_ASSERT((int)p->getMaxPara() == antichain(n, pre), "getMaxPara() is %d, expected %d", (int)p->getMaxPara(), antichain(n, pre));
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { bool s = i != j && ((closure(n, pre, i) >> j & 1) || (closure(n, pre, j) >> i & 1)); MC_ASSERT(p->checkSeparate(e[i], e[j]) == s, "checkSeparate(%d, %d) is %d", i, j, !s); }
    bool chain = eng == 0; unsigned succ[8] = {}; int heads = 0, tails = 0; for (int i = 0; i < n; i++) { if (popc(pre[i]) > 1) chain = false; if (!pre[i]) heads++; for (int j = 0; j < i; j++) if (pre[i] >> j & 1) succ[j]++; } for (int i = 0; i < n; i++) { if (succ[i] > 1) chain = false; if (!succ[i]) tails++; } if (heads != 1 || tails != 1) chain = false;
    reduced(n, pre, red); int cut = 0; for (int i = 0; i < n; i++) cut += popc(pre[i] & ~red[i]); bool cutFirst = mc_choose(2, "trim first");
    if (!cutFirst) MC_ASSERT(p->makeSerial().isOK() == chain, "makeSerial() %s a %s", chain ? "refuses" : "accepts", chain ? "chain" : "graph that is none");
    CSize t = p->trim(); MC_ASSERT((int)t == cut, "trim() removed %d edges, %d are redundant", (int)t, cut); for (int i = 0; i < n; i++) MC_ASSERT(deps(e[i], e) == red[i], "after trim() element %d depends on %x, expected %x", i, deps(e[i], e), red[i]); MC_ASSERT(p->trim() == 0, "trim() again");
    MC_ASSERT((int)p->getMaxPara() == antichain(n, pre), "trim() changes the parallelism"); bool chain2 = eng == 0 && antichain(n, pre) == 1; if (cutFirst) { bool s = p->makeSerial().isOK(); MC_ASSERT(s == chain2, "makeSerial() after trim()"); chain = s; }
    W->n = n; for (int i = 0; i < n; i++) W->pre[i] = closure(n, pre, i); W->serial = chain; ok(p->init(), "init"); if (chain) MC_ASSERT(mc_live_threads() == 0, "a serial pipeline has threads"); else MC_ASSERT(mc_live_threads() == 1, "threads"); for (int r = 0; r < 2; r++) { ok(runOnce(p), "run"); allRan(); }
    ok(p->destroy(), "destroy"); finish(p);
}
MC_SCENARIO(graphs_1, 0, 0, 0, 0) { analyse(1, true); }
MC_SCENARIO(graphs_2, 0, 0, 0, 0) { analyse(2, true); }
MC_SCENARIO(graphs_3, 0, 0, 0, 0) { analyse(3, true); }
MC_SCENARIO(graphs_4, 0, 0, 0, 0) { analyse(4, true); }
MC_SCENARIO(graphs_4_plain, 0, 0, 0, 0) { analyse(4, false); }
MC_SCENARIO(graphs_5, 0, 0, 0, 0) { analyse(5, false); }
MC_SCENARIO(graphs_5_levels, -1, -1, 0, 0) { analyse(5, true); }
MC_SCENARIO(graphs_6, -1, -1, 0, 0) { analyse(6, false); }
// trees of groups: every pair of elements, against the position of their nearest common group
static bool separate(Tree &t, TN *u, TN *v) { if (u == v) return false; std::vector<TN *> pu, pv; for (TN *x = u; x; x = x->up) pu.push_back(x); for (TN *x = v; x; x = x->up) pv.push_back(x); size_t i = pu.size(), j = pv.size(); while (i && j && pu[i - 1] == pv[j - 1]) i--, j--; if (!i || !j) return true; TN *l = pu[i]; int a = pu[i - 1]->pos, b = pv[j - 1]->pos; switch (l->kind) { case CLUSTER: case COND: case MSERIAL: return true; case MPARALLEL: return false; default: return Tree::reach(l, a, b) || Tree::reach(l, b, a); } }
static Kind kind(const char *w) { static const Kind K[] = { CLUSTER, REGION, COND, MSERIAL, MPARALLEL }; return K[mc_choose(5, w)]; }
static void edges(TN *g, const char *w) { if (g->kind != REGION && g->kind != ROOT) return; unsigned pre[8]; int n = (int)g->ch.size(); dag(n, mc_choose(dagCount(n), w), pre); for (int i = 0; i < n; i++) g->dep[i] = pre[i]; }
static void cond(TN *g) { if (g->kind != COND) return; int k = mc_choose((int)g->ch.size(), "taken"); for (size_t i = 0; i < g->ch.size(); i++) g->take[i] = (int)i == k; }
// is the group, executed alone, executed by one thread?
static bool serialOK(TN *t) { if (t->kind == LEAF) return true; for (auto *c : t->ch) if (!serialOK(c)) return false; if (t->kind == MPARALLEL) return t->ch.size() <= 1; if (t->kind == REGION || t->kind == ROOT) { if (t->kind == REGION && t->eng != 0) return false; int heads = 0, tails = 0; for (size_t i = 0; i < t->ch.size(); i++) { int s = 0; for (size_t j = 0; j < t->ch.size(); j++) s += t->dep[j] >> i & 1; if (popc(t->dep[i]) > 1 || s > 1) return false; heads += !t->dep[i]; tails += !s; } return heads == 1 && tails == 1; } return true; }
static int redundant(TN *t) { int n = (int)t->ch.size(), c = 0; if (t->kind == REGION || t->kind == ROOT) { unsigned pre[8], red[8]; for (int i = 0; i < n; i++) pre[i] = t->dep[i]; reduced(n, pre, red); for (int i = 0; i < n; i++) c += popc(pre[i] & ~red[i]); for (auto *x : t->ch) if (x->kind == REGION) c += redundant(x); } return c; }
static void groups(Tree &t, bool run, bool trim) {
    auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(3)); realize(p, t); std::vector<TN *> all; for (auto *x : t.all) if (x->kind != ROOT) all.push_back(x);
    for (auto *u : all) for (auto *v : all) MC_ASSERT(p->checkSeparate(u->e, v->e) == separate(t, u, v), "checkSeparate() says %d", !separate(t, u, v)); bool thr = false; try { p->getMaxPara(); } catch (const CException &) { thr = true; } MC_ASSERT(thr, "getMaxPara() with groups");
    if (trim) { int r = redundant(t.root); CSize x = p->trim(); MC_ASSERT((int)x == r, "trim() removed %d edges, %d are redundant", (int)x, r); for (auto *u : all) for (auto *v : all) MC_ASSERT(p->checkSeparate(u->e, v->e) == separate(t, u, v), "checkSeparate() says %d after trim()", !separate(t, u, v)); }
    else { bool s = p->makeSerial().isOK(); MC_ASSERT(s == serialOK(t.root), "makeSerial() says %d", s); W->serial = s; if (s) run = true; }
    if (run) { ok(p->init(), "init"); if (W->serial) MC_ASSERT(mc_live_threads() == 0, "a serial pipeline has threads"); mc_explore(1); auto s = runOnce(p); mc_explore(0); ok(s, "run"); allRan(); ok(p->destroy(), "destroy"); } finish(p);
}
static void nested(bool run) { VT_WORLD Tree t; auto *a = t.mk(LEAF), *b = t.mk(LEAF), *c = t.mk(LEAF), *d = t.mk(LEAF); auto *i = t.mk(kind("inner"), { a, b }); edges(i, "inner edges"); cond(i); auto *o = mc_choose(2, "position") ? t.mk(kind("outer"), { c, i }) : t.mk(kind("outer"), { i, c }); edges(o, "outer edges"); cond(o); t.root = t.mk(ROOT, { o, d }); edges(t.root, "edges"); groups(t, run, mc_choose(2, "trim")); }
MC_SCENARIO(nested_groups, 0, 0, 0, 0) { nested(false); }
MC_SCENARIO(nested_groups_run, -1, -1, 0, 0) { nested(true); }
MC_SCENARIO(two_groups, 0, 0, 0, 0) { VT_WORLD Tree t; auto *a = t.mk(LEAF), *b = t.mk(LEAF), *c = t.mk(LEAF), *d = t.mk(LEAF), *e = t.mk(LEAF); auto *g = t.mk(kind("first"), { a, b }), *h = t.mk(kind("second"), { c, d }); edges(g, "edges 1"); edges(h, "edges 2"); cond(g); cond(h); t.root = t.mk(ROOT, { g, e, h }); edges(t.root, "edges"); groups(t, false, mc_choose(2, "trim")); }
MC_SCENARIO(region_of_3, 0, 0, 0, 0) { VT_WORLD Tree t; auto *a = t.mk(LEAF), *b = t.mk(LEAF), *c = t.mk(LEAF), *d = t.mk(LEAF); auto *i = t.mk(REGION, { a, b, c }); i->eng = mc_choose(3, "engine"); edges(i, "edges"); bool in = mc_choose(2, "in a region"); auto *o = in ? t.mk(REGION, { i, d }) : t.mk(CLUSTER, { i, d }); edges(o, "outer edges"); t.root = t.mk(ROOT, { o }); groups(t, false, mc_choose(2, "trim")); }
// elements said to be separate never overlap, in no schedule; the others do in some (their overlaps are in the evidence)
static void overlaps(Tree &t, int threads) {
    static bool sep[MAXN][MAXN]; auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(threads)); p->setGEngineType(engine(mc_choose(2, "engine"))); realize(p, t); for (int i = 0; i < W->n; i++) for (int j = 0; j < W->n; j++) sep[i][j] = p->checkSeparate(t.leaf[i]->e, t.leaf[j]->e); t.sep = sep; if (mc_choose(2, "trim")) p->trim();
    ok(p->init(), "init"); mc_explore(1); auto s = runOnce(p); mc_explore(0); ok(s, "run"); allRan(); ok(p->destroy(), "destroy"); finish(p);
}
MC_SCENARIO(overlap_graph, 1, 0, 2, 2) { VT_WORLD Tree t; auto *a = t.mk(LEAF), *b = t.mk(LEAF), *c = t.mk(LEAF), *d = t.mk(LEAF); t.root = t.mk(ROOT, { a, b, c, d }); edges(t.root, "edges"); overlaps(t, 3); }
MC_SCENARIO(overlap_group, 1, 1, 2, 2) { VT_WORLD Tree t; auto *a = t.mk(LEAF), *b = t.mk(LEAF), *c = t.mk(LEAF), *d = t.mk(LEAF); auto *g = t.mk(kind("group"), { a, b, c }); edges(g, "edges"); cond(g); t.root = t.mk(ROOT, { g, d }); edges(t.root, "edges"); overlaps(t, 3); }
MC_SCENARIO(overlap_nested, 0, 0, 1, 1) { VT_WORLD Tree t; auto *a = t.mk(LEAF), *b = t.mk(LEAF), *c = t.mk(LEAF), *d = t.mk(LEAF); auto *i = t.mk(kind("inner"), { a, b }); edges(i, "inner edges"); cond(i); auto *o = t.mk(kind("outer"), { c, i }); edges(o, "outer edges"); cond(o); t.root = t.mk(ROOT, { o, d }); edges(t.root, "edges"); overlaps(t, 4); }
// a pipeline made serial executes everything without threads, whatever its elements do; or it is refused
struct Trig : GEvent { static int n; CVoid trigger(GEventParamPtr) override { n++; } }; int Trig::n;
struct Ev : TNode { CStatus run() override { ok(notify("e", GEventType::ASYNC, GEventAsyncStrategy::PIPELINE_RUN_FINISH), "notify"); return CStatus(); } };
MC_SCENARIO(serial_time_limit, 0, 0, 1, 1) {
    VT_WORLD auto p = GPipelineFactory::create(); int where = mc_choose(4, "where"); Tree t; W->n = 2; T = nullptr; W->checkDeps = false; p->setUniqueThreadPoolConfig(cfg(1)); GElementPtr e[2]; TNode *n[2]; for (int i = 0; i < 2; i++) { n[i] = p->createGNode<TNode>(GNodeInfo("n")); n[i]->vid = i; e[i] = n[i]; }
    int lim = mc_choose(2, "limit"); if (lim) n[1]->setTimeout(1000); if (where == 0) { ok(p->registerGNode(&e[0]), "r"); ok(p->registerGNode(&e[1], { e[0] }), "r"); } else { GElementPtr g = nullptr; if (where == 1) g = p->createGGroup<GCluster>({ e[0], e[1] }); else if (where == 2) { ok(e[1]->addDependGElements({ e[0] }), "dep"); g = p->createGGroup<GRegion>({ e[0], e[1] }); } else { auto in = p->createGGroup<GCluster>({ e[1] }); g = p->createGGroup<GMultiCondition<GMultiConditionType::SERIAL>>({ e[0], in }); } if (where == 1) ok(p->registerGElement<GCluster>(&g), "r"); else if (where == 2) ok(p->registerGElement<GRegion>(&g), "r"); else ok(p->registerGElement<GMultiCondition<GMultiConditionType::SERIAL>>(&g), "r"); }
    bool s = p->makeSerial().isOK(); W->serial = s; MC_ASSERT(s == !lim, "makeSerial() of elements with%s time limit says %d", lim ? "" : "out", s); ok(p->init(), "init"); if (s) MC_ASSERT(mc_live_threads() == 0, "threads"); mc_explore(1); auto st = runOnce(p); mc_explore(0); ok(st, "run"); if (where != 3) allRan(); ok(p->destroy(), "destroy"); finish(p);
}
MC_SCENARIO(serial_event, 0, 0, 1, 1) {
    VT_WORLD Trig::n = 0; auto p = GPipelineFactory::create(); p->addGEvent<Trig>("e"); GElementPtr e = nullptr; ok(p->registerGElement<Ev>(&e), "r"); if (mc_choose(2, "serial")) { ok(p->makeSerial(), "serial"); } else p->setUniqueThreadPoolConfig(cfg(1)); mc_explore(1); ok(p->process(), "process"); mc_explore(0); MC_ASSERT(Trig::n == 1, "event executed %d times", Trig::n); finish(p);
}
// with a pool that is shared there are threads anyway: refused, and the pool is used
MC_SCENARIO(serial_shared, 0, 0, 1, 1) {
    VT_WORLD T = nullptr; UThreadPool tp(true, cfg(1 + mc_choose(2, "threads"))); auto p = GPipelineFactory::create(); unsigned pre[3] = { 0, 1, 2 }; auto e = build(p, 1 + mc_choose(3, "elements"), pre); bool first = mc_choose(2, "refused first"); if (first) { ok(p->makeSerial(), "makeSerial()"); } p->setSharedThreadPool(&tp); if (!first || mc_choose(2, "again")) MC_ASSERT(p->makeSerial().isErr(), "makeSerial() accepts a pipeline whose pool is shared"); int live = mc_live_threads();
    for (int l = 0; l < 2; l++) { ok(p->init(), "init"); MC_ASSERT(mc_live_threads() == live && live > 0, "%d threads, %d before", mc_live_threads(), live); mc_explore(1); auto s = runOnce(p); mc_explore(0); ok(s, "run"); allRan(); ok(p->destroy(), "destroy"); } finish(p); ok(tp.destroy(), "pool");
}
// a dependency that is removed counts no longer: for what the pipeline says and for how it executes
MC_SCENARIO(removed, 0, 0, 1, 0) {
    VT_WORLD T = nullptr; int n = 3 + mc_choose(2, "n"); auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(2)); p->setGEngineType(engine(mc_choose(2, "engine"))); unsigned pre[8], red[8]; dag(n, mc_choose(dagCount(n), "dag"), pre); auto e = build(p, n, pre);
    for (int k = n == 4; k < 2; k++) { int i = mc_choose(n, "element"), j = mc_choose(n, "dependency"); bool is = pre[i] >> j & 1; auto s = e[i]->removeDepend(e[j]); MC_ASSERT(s.isErr() == !is, "removing %s returned %d", is ? "a dependency" : "what is no dependency", s.getCode()); pre[i] &= ~(1u << j); for (int x = 0; x < n; x++) MC_ASSERT(deps(e[x], e) == pre[x], "element %d depends on %x, expected %x", x, deps(e[x], e), pre[x]); }
    MC_ASSERT((int)p->getMaxPara() == antichain(n, pre), "getMaxPara() is %d, expected %d", (int)p->getMaxPara(), antichain(n, pre)); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) MC_ASSERT(p->checkSeparate(e[i], e[j]) == (closure(n, pre, i) >> j & 1), "checkSeparate(%d, %d)", i, j);
    for (int i = 0; i < n; i++) W->pre[i] = pre[i]; ok(p->init(), "init"); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (pre[i] >> j & 1) MC_ASSERT(e[i]->removeDepend(e[j]).isErr(), "a dependency of an initialised pipeline was removed"); mc_explore(1); auto s = runOnce(p); mc_explore(0); ok(s, "run"); allRan(); ok(p->destroy(), "destroy");
    reduced(n, pre, red); int cut = 0; for (int i = 0; i < n; i++) cut += popc(pre[i] & ~red[i]); MC_ASSERT((int)p->trim() == cut, "trim()"); finish(p);
}
