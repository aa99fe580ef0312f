// C10: GSome: the group ends with its first k members, run() with all that were started.
#include "common.h"
#include <mutex>
#include <condition_variable>
VT_MAIN
using namespace vt;

static mc::Var doneNow, started; static int K; static unsigned late; static std::mutex mx; static std::condition_variable cv; static bool yStarted;
class SNode : public GNode { public: int vid = -1;
    CStatus run() override {
        enter(vid); started.add(1);
        if (late >> vid & 1) { std::unique_lock<std::mutex> lk(mx); cv.wait(lk, [] { return yStarted; }); } else mc_point();
        int a = W->act[vid]; leave(vid); doneNow.add(1);
        if (a == THROW) CGRAPH_THROW_EXCEPTION("thr" + std::to_string(vid))
        return a == ERR ? CStatus(-100 - vid, "err") : CStatus(); } };
class YNode : public GNode { public: int vid = -1;      // the successor
    CStatus run() override { long d = doneNow.get(); MC_ASSERT(d >= K, "the successor of the group started with %ld of %d members finished", d, K); enter(vid); leave(vid); { std::unique_lock<std::mutex> lk(mx); yStarted = true; } cv.notify_all(); return CStatus(); } };
class Some : public GSome { CSize getWaitNum() override { return K; } };
struct Pipe { GPipelinePtr p; GElementPtr x = nullptr, g = nullptr, y = nullptr; int n; GElementPtrArr ch;
    Pipe(int n_, int eng, int threads) : n(n_) {
        late = 0; p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(threads)); p->setGEngineType(engine(eng));
        for (int i = 0; i < n; i++) { auto *c = p->createGNode<SNode>(GNodeInfo(std::string("c"))); c->vid = i; ch.push_back(c); }
        ok(p->registerGElement<SNode>(&x, {}, "x"), "x"); static_cast<SNode *>(x)->vid = 6;
        W->n = 8; W->pre[6] = 0; for (int i = 0; i < n; i++) W->pre[i] = 1u << 6; W->pre[7] = 1u << 6; }
    void plain() { g = p->createGGroup<Some>(ch); ok(p->registerGElement<Some>(&g, { x }, "g"), "group"); ok(p->registerGElement<YNode>(&y, { g }, "y"), "y"); static_cast<YNode *>(y)->vid = 7; }
    CStatus run() { doneNow.v = started.v = 0; yStarted = false; { W->newRun(); doneNow.v = -1; } return runOnce(p); }      // x itself counts as one
    void end() { ok(p->destroy(), "destroy"); for (int i = 0; i < 6; i++) MC_ASSERT(W->beg[i].get() == W->fin[i].get(), "member %d executes after destroy()", i); GPipelineFactory::remove(p); MC_ASSERT(mc_live_threads() == 0, "threads left"); } };
static void checkRun(Pipe &q, const CStatus &s) {
    ok(s, "run"); long f = 0; for (int i = 0; i < q.n; i++) { f += W->fin[i].get() - W->base[i]; MC_ASSERT(W->beg[i].get() == W->fin[i].get(), "member %d still executes after run()", i); }
    MC_ASSERT(f >= K, "run() returned with %ld of %d members finished", f, K); MC_ASSERT(W->fin[7].peek() - W->base[7] == 1 && W->fin[6].peek() - W->base[6] == 1, "x or y did not execute"); mc_outcome("%ld members executed, %d wanted", f, K);
}
static void waits(int n) {
    VT_WORLD K = mc_choose(n + 1, "wait number"); Pipe q(n, mc_choose(3, "engine"), 2 * n + 1); q.plain(); ok(q.p->init(), "init");
    for (int r = 0; r < 2; r++) { mc_explore(1); auto s = q.run(); mc_explore(0); checkRun(q, s); } q.end();
}
MC_SCENARIO(waits_for_k2, 1, 1, 2, 2) { waits(2); }
MC_SCENARIO(waits_for_k3, 0, 0, 1, 1) { waits(3); }
// fewer threads than members: those not reached in time must not surface later
MC_SCENARIO(few_threads, 1, 1, 2, 2) {
    VT_WORLD int n = 2 + mc_choose(2, "members"); K = mc_choose(n + 1, "wait number"); Pipe q(n, 0, n + 2); q.plain(); ok(q.p->init(), "init");
    for (int r = 0; r < 2; r++) { mc_explore(1); auto s = q.run(); mc_explore(0); checkRun(q, s); } mc_explore(1); q.end(); mc_explore(0);
}
// the other members wait for the successor: the group must not wait for them
static void rest(int n, int engines) {
    VT_WORLD Pipe q(n, mc_choose(engines, "engine"), 2 * n + 1); late = mc_choose((1 << n) - 1, "late"); K = n - __builtin_popcount(late); if (K == 0) mc_discard(); q.plain(); ok(q.p->init(), "init");
    for (int r = 0; r < 2; r++) { mc_explore(1); auto s = q.run(); mc_explore(0); checkRun(q, s); } q.end();
}
MC_SCENARIO(does_not_wait_for_rest2, 1, 1, 2, 2) { rest(2, 3); }
MC_SCENARIO(does_not_wait_for_rest3, 0, 0, 1, 1) { rest(3, 2); }
// an error of any member is returned by run()
static void errors(int n, int engines) {
    VT_WORLD K = 1 + mc_choose(n, "wait number"); Pipe q(n, mc_choose(engines, "engine"), 2 * n + 1); q.plain(); int bad = mc_choose(n, "bad"); W->act[bad] = mc_choose(2, "throw") ? THROW : ERR; ok(q.p->init(), "init");
    mc_explore(1); auto s = q.run(); mc_explore(0); bool ran = W->beg[bad].peek() > 0; MC_ASSERT(s.isErr() == ran, "run returned %d although the failing member %s", s.getCode(), ran ? "executed" : "did not execute"); mc_outcome("error %d, y %ld", s.isErr(), W->beg[7].peek());
    if (K == n) MC_ASSERT(ran && W->beg[7].peek() == 0, "the successor executed although a member it waits for failed");
    for (int i = 0; i < n; i++) MC_ASSERT(W->beg[i].get() == W->fin[i].get(), "member %d still executes after run()", i);
    W->act[bad] = OK; mc_explore(1); s = q.run(); mc_explore(0); checkRun(q, s); q.end();
}
MC_SCENARIO(errors2, 1, 1, 2, 2) { errors(2, 2); }
MC_SCENARIO(errors3, 0, 0, 1, 1) { errors(3, 3); }
MC_SCENARIO(wait_number_too_big, 0, 0, 1, 1) {
    VT_WORLD int n = 1 + mc_choose(3, "members"); K = n + 1 + mc_choose(2, "more"); Pipe q(n, mc_choose(3, "engine"), 2); q.plain(); ok(q.p->init(), "init"); mc_explore(1); auto s = q.run(); mc_explore(0);
    MC_ASSERT(s.isErr(), "wait number %d of %d members accepted", K, n); for (int i = 0; i < n; i++) MC_ASSERT(W->beg[i].peek() == 0, "member executed"); MC_ASSERT(W->beg[7].peek() == 0, "successor executed"); q.end();
}
// inside a looping cluster or region every iteration has its own k members
class Clu : public GCluster {}; class Reg : public GRegion {};
class Probe : public GNode { public: CStatus run() override { long d = doneNow.get(), it = started.get(); (void)it; W->beg[5].add(1); W->fin[5].add(1); long k = W->fin[5].peek() - W->base[5]; MC_ASSERT(d >= K * k, "iteration %ld ended with %ld members finished in all iterations, expected at least %ld", k, d, K * k); return CStatus(); } };
MC_SCENARIO(in_a_loop, 0, 0, 1, 1) {
    VT_WORLD int n = 2; K = 1 + mc_choose(n, "wait number"); Pipe q(n, mc_choose(2, "engine"), 6); int loop = 2 + mc_choose(2, "loop"); for (int i = 0; i < n; i++) W->loops[i] = loop; bool reg = mc_choose(2, "region");
    GElementPtr some = q.p->createGGroup<Some>(q.ch); auto *pr = q.p->createGNode<Probe>(GNodeInfo({ some }, std::string("probe"), 1)); GElementPtr g = nullptr; CStatus s;
    if (reg) { g = q.p->createGGroup<Reg>({ some, pr }); s = q.p->registerGElement<Reg>(&g, { q.x }, "r", loop); } else { g = q.p->createGGroup<Clu>({ some, pr }); s = q.p->registerGElement<Clu>(&g, { q.x }, "c", loop); } ok(s, "register");
    ok(q.p->registerGElement<YNode>(&q.y, { g }, "y"), "y"); static_cast<YNode *>(q.y)->vid = 7; W->checkDeps = false; W->loops[5] = loop;
    ok(q.p->init(), "init"); for (int r = 0; r < 2; r++) { mc_explore(1); s = q.run(); mc_explore(0); ok(s, "run"); MC_ASSERT(W->fin[5].peek() - W->base[5] == loop, "probe executed %ld times", W->fin[5].peek() - W->base[5]); } q.end();
}
