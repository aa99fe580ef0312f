// C09: conditions and multi conditions execute exactly the members that were chosen.
#include "tree.h"
VT_TREE_MAIN
using namespace vt;

static mc::Var asked[MAXN], choices; static std::vector<int> script; static unsigned match[8]; static int throwAt = -1;
class CNode : public GNode { public: int vid = -1; CStatus run() override { return body(vid); }
    CBool isMatch() override { long k = asked[vid].add(1) - 1; if (throwAt == vid) CGRAPH_THROW_EXCEPTION("nomatch") return match[k] >> vid & 1; } };
class Cond : public GCondition { public: CIndex choose() override { long k = choices.add(1) - 1; mc_point(); return script[k]; } };
class MS : public GMultiCondition<GMultiConditionType::SERIAL> {}; class MP : public GMultiCondition<GMultiConditionType::PARALLEL> {};
template<class G> struct Pipe {
    GPipelinePtr p; GElementPtr x = nullptr, g = nullptr, y = nullptr; GElementPtrArr ch;
    // x -> group of n nodes (0..n-1) -> y ; oracle ids of x, y: 6, 7
    Pipe(int n, int loop, int eng, int threads) {
        choices.v = 0; throwAt = -1; for (auto &a : asked) a.v = 0;
        p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(threads)); p->setGEngineType(engine(eng));
        for (int i = 0; i < n; i++) { auto *c = p->createGNode<CNode>(GNodeInfo("c" + std::to_string(i))); c->vid = i; ch.push_back(c); }
        ok(p->registerGElement<CNode>(&x, {}, "x"), "x"); static_cast<CNode *>(x)->vid = 6;
        g = p->createGGroup<G>(ch); ok(p->registerGElement<G>(&g, { x }, "g", loop), "group");
        ok(p->registerGElement<CNode>(&y, { g }, "y"), "y"); static_cast<CNode *>(y)->vid = 7;
        W->n = 8; for (int i = 0; i < n; i++) { W->pre[i] = 1u << 6; W->pre[7] |= 1u << i; W->loops[i] = 0; } W->pre[7] |= 1u << 6; for (int i = n; i < 6; i++) W->loops[i] = 0;
    }
    void end() { ok(p->destroy(), "destroy"); GPipelineFactory::remove(p); }
};
// every choice sequence (including -1 = the last member, and indexes no member has) over several loops and runs
MC_SCENARIO(condition, 1, 1, 2, 2) {
    VT_WORLD int n = 2 + mc_choose(2, "members"), shape = mc_choose(3, "loop x runs"), loop = 1 + (shape == 1), runs = 1 + (shape == 2); Pipe<Cond> q(n, loop, mc_choose(3, "engine"), 2);
    static const int V[] = { 0, 1, 2, 3, -1, -2, 100000 }; script.clear(); for (int i = 0; i < loop * runs; i++) script.push_back(V[mc_choose(i ? 5 : 7, "index")]);
    ok(q.p->init(), "init"); int k = 0;
    for (int r = 0; r < runs; r++) {
        for (int i = 0; i < n; i++) W->loops[i] = 0;
        for (int l = 0; l < loop; l++, k++) { int v = script[k]; if (v == -1) v = n - 1; if (v >= 0 && v < n) W->loops[v]++; }
        mc_explore(1); auto s = runOnce(q.p); mc_explore(0); ok(s, "run"); allRan();
        MC_ASSERT(choices.peek() == k, "choose() was called %ld times in %d iterations", choices.peek(), k);
    }
    q.end();
}
MC_SCENARIO(empty_condition, 0, 0, 0, 0) { VT_WORLD script = { mc_choose(3, "index") - 1 }; Pipe<Cond> q(0, 1, mc_choose(3, "engine"), 1); ok(q.p->init(), "init"); ok(runOnce(q.p), "run"); allRan(); q.end(); }
// multi condition: every subset of matching members, per iteration
template<class G> static void multi(bool par, int maxN) {
    int n = 1 + mc_choose(maxN, "members"), loop = 1 + mc_choose(2, "loop"); Pipe<G> q(n, loop, mc_choose(3, "engine"), 2 + mc_choose(2, "threads"));
    for (int l = 0; l < loop; l++) match[l] = mc_choose(1 << n, "matching"); match[loop] = match[0] ^ 1; for (int l = 1; l < loop; l++) match[loop + l] = match[l];
    ok(q.p->init(), "init");
    for (int r = 0; r < 2; r++) {
        for (int i = 0; i < n; i++) { W->loops[i] = 0; for (int l = 0; l < loop; l++) W->loops[i] += match[r * loop + l] >> i & 1; }
        if (!par && loop == 1) for (int i = 0; i < n; i++) { W->pre[i] = 1u << 6; for (int j = 0; j < i; j++) W->pre[i] |= 1u << j; }
        mc_explore(1); auto s = runOnce(q.p); mc_explore(0); ok(s, "run"); allRan();
        for (int i = 0; i < n; i++) MC_ASSERT(asked[i].peek() == (r + 1) * loop, "isMatch of member %d was asked %ld times in %d iterations", i, asked[i].peek(), (r + 1) * loop);
    }
    q.end();
}
MC_SCENARIO(multi_serial, 1, 1, 2, 2) { VT_WORLD W->serial = true; multi<MS>(false, 2); }
MC_SCENARIO(multi_parallel, 1, 1, 2, 2) { VT_WORLD multi<MP>(true, 2); }
MC_SCENARIO(multi_serial3, 0, 0, 1, 1) { VT_WORLD W->serial = true; multi<MS>(false, 3); }
MC_SCENARIO(multi_parallel3, 0, 0, 1, 1) { VT_WORLD multi<MP>(true, 3); }
// the parallel multi condition waits for all its members, even if some failed; the serial one stops
template<class G> static void failing(bool par) {
    int n = 3; Pipe<G> q(n, 1, mc_choose(3, "engine"), 2 + mc_choose(2, "threads")); match[0] = match[1] = 7; int bad = mc_choose(3, "bad"); W->act[bad] = ERR; W->pre[7] = 0; for (int i = 0; i < n; i++) W->loops[i] = 1;
    ok(q.p->init(), "init"); mc_explore(1); auto s = runOnce(q.p); mc_explore(0);
    MC_ASSERT(s.getCode() == -100 - bad, "run returned %d", s.getCode()); MC_ASSERT(W->beg[7].peek() == 0, "the successor of a failed group executed");
    for (int i = 0; i < n; i++) MC_ASSERT(W->fin[i].peek() == (par ? 1 : i <= bad), "member %d executed %ld times, member %d failed", i, W->fin[i].peek(), bad);
    W->act[bad] = OK; mc_explore(1); s = runOnce(q.p); mc_explore(0); ok(s, "next run"); allRan(); q.end();
}
MC_SCENARIO(failing_serial, 1, 1, 2, 2) { VT_WORLD failing<MS>(false); }
MC_SCENARIO(failing_parallel, 1, 1, 2, 2) { VT_WORLD failing<MP>(true); }
// a member whose isMatch throws: the group crashes, and no other member is left executing
template<class G> static void throwing() {
    Pipe<G> q(3, 1, mc_choose(3, "engine"), 2); match[0] = 7; match[1] = 7; throwAt = mc_choose(3, "throws"); W->pre[7] = 0; for (int i = 0; i < 3; i++) W->loops[i] = -1;
    ok(q.p->init(), "init"); mc_explore(1); auto s = runOnce(q.p); mc_point(); mc_point();
    MC_ASSERT(s.isCrash(), "run returned %d", s.getCode()); MC_ASSERT(W->beg[7].peek() == 0 && W->beg[throwAt].peek() == 0, "executed although isMatch threw"); throwAt = -1;
    for (int i = 0; i < 3; i++) { MC_ASSERT(W->beg[i].get() == W->fin[i].get(), "member %d still executes", i); asked[i].v = 0; W->loops[i] = 1; }
    s = runOnce(q.p); mc_explore(0); ok(s, "next run"); allRan(); q.end();
}
MC_SCENARIO(throwing_serial, 1, 1, 2, 2) { VT_WORLD throwing<MS>(); }
MC_SCENARIO(throwing_parallel, 1, 1, 2, 2) { VT_WORLD throwing<MP>(); }
// conditions inside clusters, regions and other conditions
MC_SCENARIO(nested, 0, 0, 1, 1) {
    VT_WORLD Tree t; Kind O[] = { CLUSTER, REGION, COND, MSERIAL, MPARALLEL }, I[] = { COND, MSERIAL, MPARALLEL, CLUSTER, REGION };
    Kind ko = O[mc_choose(5, "outer")], ki = I[mc_choose(5, "inner")]; auto *a = t.mk(LEAF), *b = t.mk(LEAF), *c = t.mk(LEAF), *d = t.mk(LEAF), *y = t.mk(LEAF);
    auto *i = t.mk(ki, { a, b }, 1 + mc_choose(2, "inner loop")); auto *o = t.mk(ko, { c, i, d }, 1 + mc_choose(2, "outer loop")); t.root = t.mk(ROOT, { o, y }); t.root->dep[1] = 1;
    auto take = [&](TN *g) { if (g->kind == COND) { int k = mc_choose(g->ch.size() + 1, "chosen"); for (size_t j = 0; j < g->ch.size(); j++) g->take[j] = (int)j == k; } else if (g->kind == MSERIAL || g->kind == MPARALLEL) { int k = mc_choose(1 << g->ch.size(), "matching"); for (size_t j = 0; j < g->ch.size(); j++) g->take[j] = k >> j & 1; } };
    take(i); take(o); auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(3)); p->setGEngineType(engine(mc_choose(2, "engine"))); realize(p, t); ok(p->init(), "init");
    mc_explore(1); auto s = runOnce(p); mc_explore(0); ok(s, "run"); allRan(); ok(p->destroy(), "destroy"); GPipelineFactory::remove(p); T = nullptr;
}
