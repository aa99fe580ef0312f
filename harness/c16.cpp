// C16: aspects: which hooks are called, in which order, with which status.
#include "common.h"
#include <map>
#include <thread>
#include <chrono>
VT_MAIN
using namespace vt;
#define NOTSAN __attribute__((no_sanitize("thread")))
struct Fail { int el = -1, what = 0, asp = 0; };       // what: 1 beginInit 2 init 3 beginRun 4 run 5 beginDestroy 6 destroy; asp: the aspect whose begin hook fails
static Fail F; static char lg[5][256]; static int ln[5]; static long iter[5];
static NOTSAN void put(int el, char c, int k) { if (ln[el] < 250) { lg[el][ln[el]++] = c; lg[el][ln[el]++] = '0' + k; lg[el][ln[el]] = 0; } }
static std::map<GElement *, int> *ids;
static int elOf(const std::string &n) { return std::stoi(n.substr(1)); }
struct AP : public GAspectParam { int k = -1; std::vector<int> v; CVoid clone(GPassedParam *p) override { auto *x = dynamic_cast<AP *>(p); k = x->k; v = x->v; } };
struct Other : public GAspectParam { CVoid clone(GPassedParam *) override {} };
static char st(const CStatus &s) { return s.isOK() ? 'o' : 'e'; }
class LA : public GAspect { public:
    int el() { return elOf(getName()); } int k() { AP *p = getAParam<AP>(); MC_ASSERT(p && (int)p->v.size() == p->k + 1 && !getAParam<Other>(), "aspect of element %d lost its parameter", el()); p->v.assign(p->k + 1, el()); return p->k; }
    CStatus begin(char c, int w) { int e = el(); put(e, c, k()); return F.el == e && F.what == w && F.asp == k() ? CStatus(-60 - w, "hook") : CStatus(); }
    CStatus beginInit() override { return begin('i', 1); } CStatus beginRun() override { return begin('r', 3); } CStatus beginDestroy() override { return begin('d', 5); }
    CVoid finishInit(const CStatus &s) override { put(el(), st(s) == 'o' ? 'j' : 'J', k()); } CVoid finishRun(const CStatus &s) override { put(el(), st(s) == 'o' ? 's' : 'S', k()); } CVoid finishDestroy(const CStatus &s) override { put(el(), st(s) == 'o' ? 'e' : 'E', k()); }
    CVoid enterCrashed() override { if (F.what > 10) put(el(), 'c', k()); else mc_fail("enterCrashed called without exception"); } CVoid enterTimeout() override { if (F.what == 15) put(el(), 't', k()); else mc_fail("enterTimeout called without time limit"); } };
class ANode : public GNode { public: int vid = -1; CStatus does(char c, int w) { put(vid, c, 9); if (F.el == vid && F.what == w + 10) CGRAPH_THROW_EXCEPTION("thrown") return F.el == vid && F.what == w ? CStatus(-60 - w, "own") : CStatus(); }
    CStatus init() override { return does('x', 2); } CStatus destroy() override { return does('z', 6); }
    CStatus run() override { enter(vid); mc_point(); leave(vid); iter[vid]++; put(vid, 'y', 9); if (F.el == vid && F.what == 15 && iter[vid] == 1) std::this_thread::sleep_for(std::chrono::milliseconds(300)); if (F.el == vid && (F.what == 15 || (F.what == 14 && iter[vid] == W->loops[vid]))) CGRAPH_THROW_EXCEPTION("thrown") return F.el == vid && F.what == 4 && iter[vid] == 2 ? CStatus(-64, "own") : CStatus(); } };
struct Pipe { GPipelinePtr p; GElementPtr e[5] = {}; int loops[5] = { 2, 1, 1, 2, 1 }; int na[5]; bool group;
    // 0 -> 3( 1, 2 ) -> 4, or without the group 0 -> 1, 2 -> 4
    Pipe(int g, int eng, int threads) : group(g) {
        F = Fail(); for (int i = 0; i < 5; i++) ln[i] = iter[i] = 0, lg[i][0] = 0, na[i] = 0; p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(threads)); p->setGEngineType(engine(eng)); W->n = 5; W->checkDeps = false;
        ok(p->registerGElement<ANode>(&e[0], {}, "n0", 2), "r"); GElementPtrSet last;
        if (g) { GElementPtrArr m; for (int i = 1; i < 3; i++) { auto *x = p->createGNode<ANode>(GNodeInfo("n" + std::to_string(i))); e[i] = x; m.push_back(x); } if (g == 1) { e[3] = p->createGGroup<GCluster>(m); ok(p->registerGElement<GCluster>(&e[3], { e[0] }, "n3", 2), "r"); } else { e[3] = p->createGGroup<GRegion>(m); ok(p->registerGElement<GRegion>(&e[3], { e[0] }, "n3", 2), "r"); } last = { e[3] }; }
        else { for (int i = 1; i < 3; i++) { ok(p->registerGElement<ANode>(&e[i], { e[0] }, "n" + std::to_string(i)), "r"); last.insert(e[i]); } }
        ok(p->registerGElement<ANode>(&e[4], last, "n4"), "r"); for (int i = 0; i < 5; i++) { W->loops[i] = -1; if (i != 3) static_cast<ANode *>(e[i])->vid = i; }
    }
    void add(int i, int n) { for (int k = 0; k < n; k++) { AP a; a.k = na[i]; a.v.assign(na[i] + 1, 7); e[i]->addGAspect<LA>(&a); na[i]++; } }
    // hooks of one phase of element i around body (empty: not executed), which fails if bad
    std::string phase(int i, char b, const std::string &body, bool bad, char f, int w) {
        std::string s; for (int k = 0; k < na[i]; k++) { s += b; s += '0' + k; if (F.el == i && F.what == w && F.asp == k) return s; } s += body; for (int k = 0; k < na[i]; k++) { s += bad ? f - 32 : f; s += '0' + k; } return s; } };
static bool beginFails(Pipe &q, int w) { return F.what == w && F.asp < q.na[F.el]; }
static void go(int g, int eng, int runs, bool expl) {
    VT_WORLD Pipe q(g, eng, g == 2 ? 3 : 2); F.what = mc_choose(7, "failing"); if (F.what) { F.el = mc_choose(5, "element"); F.asp = F.what % 2 ? mc_choose(2, "aspect") : 0; if (!g && F.el == 3) return; if (F.el == 3 && F.what % 2 == 0) return; if (F.what == 4 && F.el != 0 && !(g && F.el < 3)) return; }
    int all = mc_choose(2, "all"); if (all) { AP a; a.k = 0; a.v = { 3 }; q.p->addGAspect<LA>({}, &a); for (auto &x : q.na) x = 1; if (!g) q.na[3] = 0; for (int i : { 0, 4 }) q.add(i, 1); } else for (int i = 0; i < 5; i++) if (i != 3 || g) q.add(i, i == 2 ? 0 : 2);
    auto expect = [&](int i, const std::string &w, const char *when) { std::string got(lg[i], ln[i]); MC_ASSERT(got == w, "%s: element %d: hooks and callbacks %s, expected %s", when, i, got.c_str(), w.c_str()); ln[i] = 0; };
    CStatus s = q.p->init(); bool bad = beginFails(q, 1) || F.what == 2; MC_ASSERT(s.isErr() == bad, "init returned %d", s.getCode()); if (bad) MC_ASSERT(s.getCode() == -60 - F.what, "init returned %d", s.getCode());
    for (int i = 0; i < 5; i++) { if (bad && i != F.el) continue; if (!g && i == 3) continue; bool own = F.el == i && F.what == 2; expect(i, q.phase(i, 'i', i == 3 ? "" : "x9", own || (i == 3 && bad), 'j', 1), "init()"); }
    if (bad) { GPipelineFactory::remove(q.p); return; }
    bool rbad = beginFails(q, 3) || F.what == 4;
    for (int r = 0; r < runs; r++) {
        for (auto &x : iter) x = 0; mc_explore(expl); s = runOnce(q.p); mc_explore(0); MC_ASSERT(s.isErr() == rbad, "run returned %d", s.getCode()); if (rbad) MC_ASSERT(s.getCode() == -60 - F.what && s.getInfo() == (F.what == 3 ? "hook" : "own"), "run returned %d %s", s.getCode(), s.getInfo().c_str());
        if (!rbad) { for (int i = 0; i < 5; i++) { if (!g && i == 3) continue; std::string w; int n = i == 0 ? 2 : g && i > 0 && i < 4 ? 2 : 1; for (int k = 0; k < n; k++) w += q.phase(i, 'r', i == 3 ? "" : "y9", false, 's', 3); expect(i, w, "run()"); } continue; }
        int i = F.el; std::string w; if (F.what == 3) w = q.phase(i, 'r', "", false, 's', 3); else { Fail f = F; for (int k = 0; k < 2; k++) w += q.phase(i, 'r', "y9", k == 1, 's', 3); }
        expect(i, w, "failing run()"); MC_ASSERT(F.what != 3 || iter[i] == 0, "element %d executed although its beginRun failed", i); if (i != 4) MC_ASSERT(ln[4] == 0, "the last element has calls %s although element %d failed", lg[4], i);
        if (g && i > 0 && i < 3) { int n = F.what == 3 ? 1 : 2; std::string w3; for (int k = 0; k < n; k++) w3 += q.phase(3, 'r', "", k == n - 1, 's', 3); expect(3, w3, "failing run(), group"); }
        for (auto &x : ln) x = 0;
    }
    Fail keep = F; s = q.p->destroy(); bad = beginFails(q, 5) || F.what == 6; MC_ASSERT(s.isErr() == bad, "destroy returned %d", s.getCode());
    for (int i = 0; i < 5; i++) { if (!g && i == 3) continue; if (bad && i != F.el) continue; bool own = F.el == i && F.what == 6; expect(i, q.phase(i, 'd', i == 3 ? "" : "z9", own, 'e', 5), "destroy()"); }
    GPipelineFactory::remove(q.p);
}
MC_SCENARIO(hooks, 0, 0, 1, 1) { int g = mc_choose(3, "group"); go(g, mc_choose(3, "engine"), 2, true); }
MC_SCENARIO(hooks_preempt, 1, 1, 2, 2) { go(mc_choose(3, "group"), 0, 1, true); }
// aspects added between runs and lives of the pipeline; template aspects keep their arguments
class TA : public GTemplateAspect<int, std::string> { public: int a; std::string b; explicit TA(int x, const std::string &y) : a(x), b(y) {} CStatus beginRun() override { MC_ASSERT(b == "s" + std::to_string(a), "template aspect lost its arguments"); put(elOf(getName()), 't', a); return CStatus(); } };
MC_SCENARIO(additions, 0, 0, 0, 0) {
    VT_WORLD Pipe q(mc_choose(3, "group"), 0, 3); std::string now; 
    for (int i = 0; i < 4; i++) { int c = mc_choose(2, "step"); if (c == 0) { q.e[0]->addGAspect<TA, int, std::string>(i, "s" + std::to_string(i)); now += 't'; now += '0' + i; }
        else { ok(q.p->init(), "init"); for (int k = 0; k < 2; k++) { for (auto &x : ln) x = 0; ok(runOnce(q.p), "run"); std::string w = now + "y9", got(lg[0], ln[0]); MC_ASSERT(got == w + w, "%s executed, expected %s twice", got.c_str(), w.c_str()); } ok(q.p->destroy(), "destroy"); } }
    GPipelineFactory::remove(q.p);
}
// an exception that leaves a callback: enterCrashed of the element's aspects, each once, in order, and of no other element
static void crashes(int what) {
    VT_WORLD int g = mc_choose(3, "group"); Pipe q(g, mc_choose(3, "engine"), 3); int el = mc_choose(4, "element"); if (el == 3) el = 4; for (int i = 0; i < 5; i++) if (i != 3 || g) q.add(i, 2); for (int i = 0; i < 5; i++) W->loops[i] = i == 0 || (g && i > 0 && i < 3) ? 2 : 1; W->checkActive = false;
    if (what == 15) { W->loops[0] = 1; q.e[0]->setLoop(1); if (g) { q.e[3]->setLoop(1); W->loops[1] = W->loops[2] = 1; } q.e[el]->setTimeout(100, GElementTimeoutStrategy::HOLD_BY_PIPELINE); }
    F.el = el; F.what = what; auto call = [&](int w) { CStatus s; try { s += w == 0 ? q.p->init() : w == 1 ? runOnce(q.p) : q.p->destroy(); } catch (const CException &x) { s = CStatus(internal::STATUS_CRASH, x.what()); } return s; };
    auto seen = [&](int i, char c) { std::string r, l(lg[i], ln[i]); for (size_t k = 0; k + 1 < l.size(); k += 2) if (l[k] == c) r += l.substr(k, 2); return r; };
    auto check = [&](const char *when, const CStatus &s, bool here, bool twice) { if (!here) { MC_ASSERT(s.isOK(), "%s returned [%d] %s", when, s.getCode(), s.getInfo().c_str()); } else MC_ASSERT(s.isCrash() && s.getInfo().find("thrown") != std::string::npos, "%s returned [%d] %s although element %d threw", when, s.getCode(), s.getInfo().c_str(), el); (void)twice;
        for (int i = 0; i < 5; i++) { auto c = seen(i, 'c'), t = seen(i, 't'); std::string w = here && i == el ? "c0c1" : "", wt = here && i == el && what == 15 ? "t0t1" : ""; MC_ASSERT(c == w || (g && i == 3 && (el == 1 || el == 2) && here && c == "c0c1"), "%s: enterCrashed of element %d was called as %s, expected %s", when, i, c.c_str(), w.c_str()); MC_ASSERT(t == wt, "%s: enterTimeout of element %d was called as %s, expected %s", when, i, t.c_str(), wt.c_str()); ln[i] = 0; } };
    mc_explore(what == 12); auto s = call(0); mc_explore(0); check("init()", s, what == 12, false); if (what == 12) { F = Fail(); ok(call(0), "init() after one that threw"); }
    for (int r = 0; r < 2; r++) { for (auto &x : iter) x = 0; if (r == 1 && what != 16) F = Fail(); mc_explore(r == 0 && what >= 14); s = call(1); mc_explore(0); check("run()", s, r == 0 && (what == 14 || what == 15), false); }
    mc_explore(what == 16); s = call(2); mc_explore(0); check("destroy()", s, what == 16, false); GPipelineFactory::remove(q.p); MC_ASSERT(mc_live_threads() == 0, "threads are left");
}
MC_SCENARIO(crashes, 0, 0, 1, 1) { static const int K[] = { 12, 14, 16 }; crashes(K[mc_choose(3, "callback")]); }
MC_SCENARIO(crashes_run, 1, 1, 2, 2) { crashes(14); }
MC_SCENARIO(crashes_late, 1, 1, 2, 2) { crashes(15); }
