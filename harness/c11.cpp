// C11: mutable groups execute exactly what the current reshape() describes.
#include "common.h"
VT_MAIN
using namespace vt;

struct Plan { unsigned visible = 0, pre[4] = {}; int loop[4] = { 1, 1, 1, 1 }; int result = 0; bool cyclic = false; };
static Plan plan[6]; static long calls; static int N;
static bool many;
class MNode : public GNode { public: int vid = -1; CStatus init() override { W->inits[vid]++; return CStatus(); } CStatus run() override { return body(vid); } CStatus destroy() override { W->dests[vid]++; return CStatus(); } };
class Mut : public GMutable { public:
    CStatus reshape(GElementPtrArr &e) override {
        Plan &p = plan[calls++]; MC_ASSERT((int)e.size() == N, "reshape() was given %d of %d elements", (int)e.size(), N); mc_point();
        for (int i = 0; i < N; i++) { W->pre[i] = 0; for (int j = 0; j < N; j++) if (p.pre[i] >> j & 1) W->pre[i] |= 1u << j; W->pre[i] |= 1u << 6; if (!many) W->loops[i] = p.result || p.cyclic || !(p.visible >> i & 1) ? 0 : p.loop[i]; }
        for (int i = 0; i < N; i++) if (p.visible >> i & 1) { (*e[i])--; if (p.loop[i] != 1) (*e[i]) * p.loop[i]; }
        for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (p.pre[i] >> j & 1) (*e[j]) > e[i];
        if (p.result == 1) return CStatus(-77, "reshape"); if (p.result == 2) CGRAPH_THROW_EXCEPTION("reshape threw")
        return CStatus(); } };
static void shape(Plan &p, int n, bool loops) { unsigned pre[8]; int k = mc_choose(dagCount(n), "dag"); dag(n, k, pre); unsigned need = 0; int perm = mc_choose(2, "order of members");
    for (int i = 0; i < n; i++) { int a = perm ? n - 1 - i : i; p.pre[a] = 0; for (int j = 0; j < i; j++) if (pre[i] >> j & 1) { int b = perm ? n - 1 - j : j; p.pre[a] |= 1u << b; need |= 1u << a | 1u << b; } }
    p.visible = need; for (int i = 0; i < n; i++) if (!(need >> i & 1) && mc_choose(2, "alone")) p.visible |= 1u << i; if (loops && p.visible) { int i = __builtin_ctz(p.visible); p.loop[i] = 1 + mc_choose(2, "loop"); } }
struct Pipe { GPipelinePtr p; GElementPtr x = nullptr, g = nullptr, y = nullptr;
    Pipe(int n, int eng, int threads, int loop) { calls = 0; many = loop > 1; N = n; for (auto &q : plan) q = Plan(); p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(threads)); p->setGEngineType(engine(eng)); GElementPtrArr ch;
        for (int i = 0; i < n; i++) { auto *c = p->createGNode<MNode>(GNodeInfo(std::string("c"))); c->vid = i; ch.push_back(c); }
        ok(p->registerGElement<MNode>(&x, {}, "x"), "x"); static_cast<MNode *>(x)->vid = 6; g = p->createGGroup<Mut>(ch); ok(p->registerGElement<Mut>(&g, { x }, "g", loop), "g"); ok(p->registerGElement<MNode>(&y, { g }, "y"), "y"); static_cast<MNode *>(y)->vid = 7;
        W->n = 8; W->pre[7] = 1u << 6; for (int i = n; i < 6; i++) W->loops[i] = 0; for (int i = 0; i < n; i++) W->pre[7] |= 1u << i; }
    void end() { ok(p->destroy(), "destroy"); for (int i = 0; i < N; i++) MC_ASSERT(W->inits[i] == 1 && W->dests[i] == 1, "member %d initialised %ld times, destroyed %ld times", i, W->inits[i], W->dests[i]); GPipelineFactory::remove(p); } };
// two successive runs with independent shapes over all members
static void two(int n, bool loops, int engines) {
    VT_WORLD Pipe q(n, mc_choose(engines, "engine"), 2, 1); shape(plan[0], n, loops); shape(plan[1], n, loops); ok(q.p->init(), "init");
    for (int r = 0; r < 2; r++) { mc_explore(1); auto s = runOnce(q.p); mc_explore(0); ok(s, "run"); allRan(); MC_ASSERT(calls == r + 1, "reshape called %ld times", calls); } q.end();
}
MC_SCENARIO(shapes2, 1, 1, 2, 2) { two(2, true, 3); }
MC_SCENARIO(shapes3, 0, 0, 1, 1) { two(3, false, 2); }
// the first shape fixed, the second explored with preemptions
MC_SCENARIO(shapes3_preempt, 1, 1, 2, 2) {
    VT_WORLD Pipe q(3, 0, 2 + mc_choose(2, "threads"), 1); static const unsigned F[3][3] = { { 0, 1, 2 }, { 0, 1, 1 }, { 0, 0, 3 } }; int f = mc_choose(4, "first"); plan[0].visible = 7; if (f < 3) for (int i = 0; i < 3; i++) plan[0].pre[i] = F[f][i]; shape(plan[1], 3, false); ok(q.p->init(), "init");
    for (int r = 0; r < 2; r++) { if (r) mc_explore(1); auto s = runOnce(q.p); mc_explore(0); ok(s, "run"); allRan(); } q.end();
}
// a mutable that loops is reshaped in each iteration
MC_SCENARIO(looping, 0, 0, 1, 1) {
    VT_WORLD int n = 2, loop = 2; Pipe q(n, mc_choose(2, "engine"), 2, loop); W->checkDeps = false; for (int k = 0; k < loop; k++) shape(plan[k], n, false); plan[2] = plan[0]; plan[3] = plan[1]; ok(q.p->init(), "init");
    for (auto &l : W->loops) l = -1; W->loops[6] = W->loops[7] = 1;
    for (int r = 0; r < 2; r++) { mc_explore(1); auto s = runOnce(q.p); mc_explore(0); ok(s, "run"); MC_ASSERT(calls == (r + 1) * loop, "reshape called %ld times", calls); for (int i = 0; i < n; i++) { long e = 0; for (int k = 0; k < loop; k++) e += plan[k].visible >> i & 1; MC_ASSERT(W->fin[i].peek() - W->base[i] == e, "member %d executed %ld times, expected %ld", i, W->fin[i].peek() - W->base[i], e); } } q.end();
}
// a failing or throwing reshape, or one that describes a cycle: an error, nothing executes, the next run is unaffected
MC_SCENARIO(bad_reshape, 0, 0, 1, 1) {
    VT_WORLD int n = 3; Pipe q(n, mc_choose(3, "engine"), 2, 1); int when = mc_choose(2, "in run"), how = mc_choose(3, "how"); for (int k = 0; k < 2; k++) if (k != when) shape(plan[k], n, false);
    Plan &b = plan[when]; b.visible = 7; if (how < 2) { b.result = how + 1; b.pre[1] = 1; } else { b.cyclic = true; int c = mc_choose(3, "cycle"); if (c == 0) { b.pre[0] = 2; b.pre[1] = 1; } else if (c == 1) { b.pre[0] = 4; b.pre[1] = 1; b.pre[2] = 2; } else { b.pre[1] = 1 | 4; b.pre[2] = 2; } }
    ok(q.p->init(), "init");
    for (int r = 0; r < 2; r++) { mc_explore(1); W->checkDeps = r != when; if (r == when) W->loops[7] = 0; else W->loops[7] = 1; auto s = runOnce(q.p); mc_explore(0);
        if (r == when) MC_ASSERT(s.isErr(), "run() succeeded with a reshape that %s", how == 0 ? "failed" : how == 1 ? "threw" : "described a cycle"); else ok(s, "run"); allRan(); } q.end();
}
// a failing member
MC_SCENARIO(failing_member, 0, 0, 1, 1) {
    VT_WORLD int n = 3; Pipe q(n, mc_choose(3, "engine"), 2, 1); shape(plan[0], n, false); plan[1] = plan[0]; int bad = mc_choose(3, "bad"); if (!(plan[0].visible >> bad & 1)) mc_discard(); W->act[bad] = ERR; W->checkFailed = true; W->checkDeps = false; ok(q.p->init(), "init");
    mc_explore(1); auto s = runOnce(q.p); mc_explore(0); MC_ASSERT(s.getCode() == -100 - bad, "run returned %d", s.getCode()); MC_ASSERT(W->beg[7].peek() == 0, "successor executed");
    W->act[bad] = OK; W->checkFailed = false; W->checkDeps = true; mc_explore(1); s = runOnce(q.p); mc_explore(0); ok(s, "run"); allRan(); q.end();
}
