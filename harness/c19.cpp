// C19: stages: a barrier that can be used again.
#include "common.h"
VT_MAIN
using namespace vt;
static mc::Var arrived[2], launched[2], inLaunch; static int thr_[2], throwAt;
struct SP : public GStageParam { int k = -1; std::string s; CVoid clone(GPassedParam *p) override { auto *x = dynamic_cast<SP *>(p); k = x->k; s = x->s; } };
struct Shared : public GParam { int v = 0; };
class St : public GStage { public: CStatus init() override { inits++; return CStatus(); } CStatus destroy() override { dests++; return CStatus(); } static int inits, dests, dead; ~St() override { dead++; }
    CVoid launch(GStageParamPtr p) override { auto *x = dynamic_cast<SP *>(p); MC_ASSERT(x && x->s == "st" + std::to_string(x->k), "a stage lost its parameter"); int k = x->k; long l = launched[k].get(), a = arrived[k].get(); MC_ASSERT(a >= (l + 1) * thr_[k], "stage %d was launched %ld times with %ld arrivals, threshold %d", k, l + 1, a, thr_[k]);
        MC_ASSERT(inLaunch.add(1) == 1, "launched twice at the same time"); mc_point(); inLaunch.add(-1); auto *q = getGParam<Shared>("p"); MC_ASSERT(q, "a stage does not find the parameter"); q->v++; launched[k].add(1); if (throwAt == l + 1) CGRAPH_THROW_EXCEPTION("stthr") } };
int St::inits, St::dests, St::dead;
struct Call { int key; };
class N : public GNode { public: int vid = -1; std::vector<int> calls; long mine[2] = { 0, 0 }; bool all = true; CStatus init() override { createGParam<Shared>("p"); return CStatus(); }
    CStatus run() override { for (int k : calls) { mine[k]++; if (all) give(k * 60 + mine[k] * 5 + vid); arrived[k].add(1); CStatus s = enterStage("s" + std::to_string(k)); ok(s, "enterStage");
            long a = arrived[k].get(), l = launched[k].get(); if (all) { MC_ASSERT(l >= mine[k], "element %d left stage %d for the time %ld after %ld launches", vid, k, mine[k], l); MC_ASSERT(a >= mine[k] * thr_[k], "element %d left stage %d for the time %ld with only %ld arrivals", vid, k, mine[k], a); for (int v = 0; v < thr_[k]; v++) taken(k * 60 + mine[k] * 5 + v); } else MC_ASSERT(l >= 1, "left the stage before it was launched"); }
        MC_ASSERT(enterStage("nokey").isErr(), "an unknown stage was accepted"); return CStatus(); } };
class Root : public GNode { public: CStatus run() override { mc_point(); return CStatus(); } };
struct Pipe { GPipelinePtr p; GElementPtr e[5] = {}; int n;
    Pipe(int n, int t0, int t1, int eng, CSize loop, int threads, bool root = false) : n(n) { handoverStart(); for (int i = 0; i < 2; i++) arrived[i].v = launched[i].v = 0; inLaunch.v = 0; throwAt = 0; St::inits = St::dests = St::dead = 0; thr_[0] = t0; thr_[1] = t1; p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(threads)); p->setGEngineType(engine(eng));
        for (int i = 0; i < 2; i++) if (thr_[i]) { SP a; a.k = i; a.s = "st" + std::to_string(i); p->addGStage<St>("s" + std::to_string(i), thr_[i], &a); a.s = "x"; }
        GElementPtrSet d; if (root) { GElementPtr r = nullptr; ok(p->registerGElement<Root>(&r, {}, "root"), "register"); d = { r }; } for (int i = 0; i < n; i++) { ok(p->registerGElement<N>(&e[i], d, "n" + std::to_string(i), loop), "register"); at(i)->vid = i; } }
    N *at(int i) { return static_cast<N *>(e[i]); }
    CStatus run() { mc_explore(1); CStatus s; try { s = p->run(); } catch (const CException &x) { s = CStatus(internal::STATUS_CRASH, x.what()); } mc_explore(0); return s; }
    void end() { int ns = (thr_[0] > 0) + (thr_[1] > 0); MC_ASSERT(St::inits == ns, "%d initialisations", St::inits); ok(p->destroy(), "destroy"); MC_ASSERT(St::dests == ns, "%d terminations", St::dests); GPipelineFactory::remove(p); MC_ASSERT(St::dead == ns, "%d stages freed", St::dead); } };
// every element comes to the same stages in the same order, several times
static void barrier(int n, CSize loop, int ncalls, int runs, int keys, bool root = false, bool tail = false) {
    VT_WORLD Pipe q(n, n, keys > 1 ? n : 0, mc_choose(2, "engine"), loop, n, root); if (tail) { GElementPtrSet d; for (int i = 0; i < n; i++) d.insert(q.e[i]); GElementPtr t = nullptr; ok(q.p->registerGElement<Root>(&t, d, "tail"), "register"); } std::vector<int> c; for (int i = 0; i < ncalls; i++) c.push_back(mc_choose(keys, "key")); for (int i = 0; i < n; i++) q.at(i)->calls = c; ok(q.p->init(), "init");
    for (int r = 0; r < runs; r++) { ok(q.run(), "run"); for (int k = 0; k < keys; k++) { long w = 0; for (int x : c) w += x == k; w *= (r + 1) * (long)loop; MC_ASSERT(launched[k].get() == w && arrived[k].get() == w * n, "stage %d was launched %ld times, expected %ld", k, launched[k].peek(), w); } } q.end();
}
MC_SCENARIO(once, 2, 2, 3, 3) { barrier(2, 1, 1, 1, 1); }
MC_SCENARIO(again, 2, 2, 3, 3) { barrier(2, 1, 2, 1, 1); }
MC_SCENARIO(loops_and_runs, 2, 2, 3, 3) { barrier(2, 2, 1, 2, 1); }
MC_SCENARIO(three, 2, 2, 3, 3) { barrier(3, 1, 2, 1, 1); }
MC_SCENARIO(two_stages, 2, 2, 3, 3) { barrier(2, 1, 3, 1, 2); }
// the participants are what one element is followed by
MC_SCENARIO(after_one, 2, 2, 3, 3) { barrier(2, 1, 1, 2, 1, true); }
MC_SCENARIO(after_one_3, 1, 1, 2, 2) { barrier(3, 1, 1, 1, 1, true); }
// the participants are what one element waits for
MC_SCENARIO(before_one, 2, 2, 3, 3) { barrier(2, 1, 1, 2, 1, false, true); }
MC_SCENARIO(between, 1, 1, 2, 2) { barrier(2 + mc_choose(2, "elements"), 1, 1, 1, 1, true, true); }
MC_SCENARIO(spurious, 2, 2, 3, 3) { mc_spurious(1); barrier(2, 1, 2, 1, 1); }
// fewer than all elements let the stage start: they leave it in groups
MC_SCENARIO(groups, 1, 1, 2, 2) {
    VT_WORLD int n = 2 + 2 * mc_choose(2, "elements"), t = 1 + mc_choose(2, "threshold"), calls = n == 4 ? 1 : 2; Pipe q(n, t, 0, 0, 1, n); for (int i = 0; i < n; i++) { q.at(i)->calls.assign(calls, 0); q.at(i)->all = t == n || t == 1; } if (t == 1) for (int i = 0; i < n; i++) q.at(i)->all = false; ok(q.p->init(), "init"); ok(q.run(), "run"); MC_ASSERT(launched[0].get() == n * calls / t, "launched %ld times", launched[0].peek()); q.end();
}
// a launch that throws: the element that caused it fails, the others go on
MC_SCENARIO(throws, 2, 2, 3, 3) {
    VT_WORLD Pipe q(2, 2, 0, mc_choose(2, "engine"), 1, 2); q.at(0)->calls = { 0 }; q.at(1)->calls = { 0 }; throwAt = 1; ok(q.p->init(), "init"); CStatus s = q.run(); MC_ASSERT(s.isErr() && s.getInfo().find("stthr") != std::string::npos, "run() returned %d %s", s.getCode(), s.getInfo().c_str()); q.at(0)->all = q.at(1)->all = false; ok(q.run(), "next run"); MC_ASSERT(launched[0].get() == 2, "launched %ld times", launched[0].peek()); q.end();
}
MC_SCENARIO(refused, 0, 0, 0, 0) {
    VT_WORLD Pipe q(1, 1, 0, 0, 1, 1); int w = mc_choose(4, "what"); bool thr = false; SP a; a.k = 1; a.s = "st1"; if (w == 3) ok(q.p->init(), "init");
    try { q.p->addGStage<St>(w == 2 ? "s0" : "s1", w < 2 ? -w : 1, &a); } catch (const CException &) { thr = true; } MC_ASSERT(thr, w < 2 ? "a threshold that is not positive was accepted" : w == 2 ? "a second stage with the same key was accepted" : "a stage was added while initialised");
    q.at(0)->calls = { 0, 0 }; if (w != 3) ok(q.p->init(), "init"); ok(q.run(), "run"); MC_ASSERT(launched[0].get() == 2, "launched"); MC_ASSERT(St::dead <= 1, "dead"); int d = St::dead; St::dead = 0; q.end(); (void)d;
}
// the participants are inside groups, in any depth
MC_SCENARIO(nested, 0, 0, 1, 1) {
    VT_WORLD Pipe q(0, 2, 0, mc_choose(2, "engine"), 1, 8); GElementPtr m[2]; for (int i = 0; i < 2; i++) { auto *x = q.p->createGNode<N>(GNodeInfo("n" + std::to_string(i))); x->vid = i; x->calls.assign(2, 0); m[i] = x; }
    int d0 = mc_choose(4, "depth of one"), d1 = mc_choose(2, "depth of the other"); auto wrap = [&](GElementPtr e, int d) { for (int i = 0; i < d; i++) { GElementPtr g = nullptr; if (mc_choose(2, "kind")) g = q.p->createGGroup<GCluster>({ e }); else g = q.p->createGGroup<GRegion>({ e }); e = g; } return e; };
    GElementPtr x = wrap(m[0], d0), y = wrap(m[1], d1); if (mc_choose(2, "in one region")) { GElementPtr g = q.p->createGGroup<GRegion>({ x, y }); ok(q.p->registerGGroup(&g), "register"); } else for (auto *e : { &x, &y }) ok((*e)->isGGroup() ? q.p->registerGGroup(e) : q.p->registerGNode(e), "register");
    for (int l = 0; l < 2; l++) { ok(q.p->init(), "init"); ok(q.run(), "run"); MC_ASSERT(launched[0].get() == 2 * (l + 1) && arrived[0].get() == 4 * (l + 1), "launched %ld times", launched[0].peek()); if (!l) ok(q.p->destroy(), "destroy"); St::inits = St::dests = 1; if (l) St::dests = 0; } q.end();
}
