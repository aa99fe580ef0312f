// Shared by C14 and C15: pipelines that are cancelled, suspended and resumed from another thread while they run.
#include "common.h"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <chrono>
VT_MAIN
using namespace vt;
static std::mutex mx; static std::condition_variable cv; static long begun, ended;      // events of the current test, for the controlling thread
static mc::Var stopped; static long begAt[MAXN], finAt[MAXN]; static unsigned after[MAXN]; static long holds[MAXN];
static __attribute__((no_sanitize("thread"))) void checkStart(int v) {
    if (!stopped.get()) return;
    MC_ASSERT(W->beg[v].peek() == begAt[v], "element %d started %ld times after the call had returned", v, W->beg[v].peek() - begAt[v] + 1);
    MC_ASSERT(begAt[v] == finAt[v], "element %d started again although its execution was in progress when the call returned", v);
    for (int u = 0; u < W->n; u++) if (after[v] >> u & 1) MC_ASSERT(W->fin[u].get() == finAt[u], "element %d started although element %d, before it, finished after the call had returned", v, u);
}
static __attribute__((no_sanitize("thread"))) void markStop() { for (int i = 0; i < W->n; i++) { begAt[i] = W->beg[i].peek(); finAt[i] = W->fin[i].peek(); } stopped.set(1); }
static __attribute__((no_sanitize("thread"))) bool takeHold(int v) { return holds[v] > 0 ? holds[v]--, true : false; }
static void event(long &c) { { std::unique_lock<std::mutex> lk(mx); c++; } cv.notify_all(); }
static void waitFor(long &c, long k) { std::unique_lock<std::mutex> lk(mx); cv.wait(lk, [&] { return c >= k; }); }
class PNode : public GNode { public: int vid = -1;
    CBool isHold() override { return takeHold(vid); }
    CStatus run() override { checkStart(vid); enter(vid); event(begun); mc_point(); leave(vid); event(ended); return CStatus(); } };
// shapes over four leaves: 0 diamond, 1 parallel, 2 chain, 3 loops, 4 cluster, 5 region, 6 cluster with a loop
enum { SHAPES = 7 };
struct Shape { GPipelinePtr p; long total = 0; int n = 4;
    Shape(int k, int eng, int threads) {
        begun = ended = 0; stopped.v = 0; for (auto &h : holds) h = 0; for (auto &a : after) a = 0; p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(threads)); p->setGEngineType(engine(eng)); W->n = n;
        static const unsigned G[4][4] = { { 0, 1, 1, 6 }, { 0, 0, 0, 0 }, { 0, 1, 2, 4 }, { 0, 1, 1, 6 } }; GElementPtr e[4];
        if (k < 4) for (int i = 0; i < n; i++) {
            GElementPtrSet d; for (int j = 0; j < i; j++) if (G[k][i] >> j & 1) d.insert(e[j]); W->loops[i] = k == 3 ? (i == 1 ? 2 : i == 3 ? 2 : 1) : 1; W->pre[i] = G[k][i];
            ok(p->registerGElement<PNode>(&e[i], d, "n" + std::to_string(i), W->loops[i]), "register"); static_cast<PNode *>(e[i])->vid = i; for (int j = 0; j < i; j++) if (closure(4, G[k], i) >> j & 1) after[i] |= 1u << j;
        } else {
            ok(p->registerGElement<PNode>(&e[0], {}, "n0"), "register"); int loop = k == 6 ? 2 : 1; GElementPtr g = nullptr; GElementPtrArr m; for (int i = 1; i < 3; i++) { PNode *x = p->createGNode<PNode>(GNodeInfo(std::string("m"))); x->vid = i; m.push_back(x); W->loops[i] = loop; }
            if (k == 5) { g = p->createGGroup<GRegion>(m); ok(p->registerGElement<GRegion>(&g, { e[0] }, "g", loop), "group"); } else { g = p->createGGroup<GCluster>(m); ok(p->registerGElement<GCluster>(&g, { e[0] }, "g", loop), "group"); }
            ok(p->registerGElement<PNode>(&e[3], { g }, "n3"), "register"); static_cast<PNode *>(e[0])->vid = 0; static_cast<PNode *>(e[3])->vid = 3;
            W->pre[1] = W->pre[2] = 1; W->pre[3] = 6; if (k != 5) { after[1] = 1 | (k == 6 ? 4 : 0); after[2] = 3; } else after[1] = after[2] = 1; after[3] = 7; W->checkDeps = true;
        }
        for (int i = 0; i < n; i++) total += W->loops[i];
    }
    void end() { ok(p->destroy(), "destroy"); GPipelineFactory::remove(p); MC_ASSERT(mc_live_threads() == 0, "threads left"); } };
