// Shared oracle and helpers of the pipeline scenarios.
#ifndef VT_COMMON_H
#define VT_COMMON_H
#include "mc.h"
#include "CGraph.h"
#include <vector>
#include <string>
#include <functional>
#include <cstdio>

namespace vt {
using namespace CGraph;

enum { MAXN = 24 };
enum { OK = 0, ERR = 1, THROW = 2, WARN = 3 };

// What the oracle knows about one graph: dependencies (as bit masks over element ids), observations.
struct World {
    int n = 0;
    unsigned pre[MAXN] = {};         // direct dependencies
    long loops[MAXN];                // expected executions per run
    mc::Var beg[MAXN], fin[MAXN];    // executions begun / finished, cumulative
    mc::Var active;                  // a run() is in progress
    long inits[MAXN] = {}, dests[MAXN] = {};
    long base[MAXN] = {};            // executions before the current run
    int act[MAXN] = {};              // OK / ERR / THROW
    int points = 1;                  // scheduling points inside a body
    bool serial = false;             // at most one body at a time
    mc::Var inside;                  // bodies in progress
    bool checkDeps = true, checkFailed = false;
    bool checkActive = true;
    long data[MAXN] = {};            // plain data of the user: written by each element, read by those that depend on it and after the run
    bool checkData = true;
    World() { for (auto &l : loops) l = 1; mc_ordered(data, sizeof data); }
    void newRun() { for (int i = 0; i < MAXN; i++) base[i] = beg[i].peek(); }
};
extern World *W;

inline bool bad(int i) { return W->act[i] == ERR || W->act[i] == THROW; }
inline __attribute__((no_sanitize("thread"))) void enter(int id) {
    World &w = *W;
    if (w.checkActive) MC_ASSERT(w.active.get() == 1, "element %d executes while no run is in progress", id);
    long b = w.beg[id].add(1) - w.base[id];
    if (w.loops[id] >= 0)
        MC_ASSERT(b <= w.loops[id], "element %d executed %ld times in one run, expected %ld", id, b, w.loops[id]);
    MC_ASSERT(w.beg[id].peek() - w.fin[id].get() == 1, "element %d executes concurrently with itself", id);
    if (w.checkDeps)
        for (int d = 0; d < w.n; d++)
            if (w.pre[id] >> d & 1)
                MC_ASSERT(w.fin[d].get() - w.base[d] == w.loops[d],
                          "element %d started before its dependency %d finished (%ld of %ld)", id, d,
                          w.fin[d].peek() - w.base[d], w.loops[d]);
    if (w.checkFailed)
        for (int d = 0; d < w.n; d++)
            if ((w.pre[id] >> d & 1) && bad(d)) mc_fail("element %d executed although its dependency %d failed", id, d);
    long in = w.inside.add(1);
    if (w.serial) MC_ASSERT(in == 1, "two elements execute at once where execution must be serial");
}
inline __attribute__((no_sanitize("thread"))) void leave(int id) {
    World &w = *W;
    if (w.checkActive) MC_ASSERT(w.active.get() == 1, "element %d still executes after run() returned", id);
    w.inside.add(-1);
    w.fin[id].add(1);
}
__attribute__((noinline)) inline void touch(World &w, int id) {
    long s = 0;
    if (w.checkDeps) for (int d = 0; d < w.n; d++) if (w.pre[id] >> d & 1) s += w.data[d];
    w.data[id] += s + 1;
}
__attribute__((noinline)) inline long readAll(World &w) { long s = 0; for (int i = 0; i < MAXN; i++) s += w.data[i]; return s; }
inline CStatus body(int id) {
    enter(id);
    if (W->checkData && W->checkActive) touch(*W, id);
    for (int i = 0; i < W->points; i++) mc_point();
    int a = W->act[id];
    leave(id);
    if (a == ERR) return CStatus(-100 - id, "err" + std::to_string(id));
    if (a == WARN) return CStatus(100 + id, "warn" + std::to_string(id));
    if (a == THROW) CGRAPH_THROW_EXCEPTION("thr" + std::to_string(id))
    return CStatus();
}

// A node of the graph under test; vid is its id in the oracle.
class VNode : public GNode {
public:
    int vid = -1;
    CStatus init() override { W->inits[vid]++; return CStatus(); }
    CStatus run() override { return body(vid); }
    CStatus destroy() override { W->dests[vid]++; return CStatus(); }
};

inline UThreadPoolConfig cfg(int threads, int secondary = 0, int busy = 1, int maxThreads = -1) {
    UThreadPoolConfig c;
    c.default_thread_size_ = threads;
    c.secondary_thread_size_ = secondary;
    c.max_thread_size_ = maxThreads < 0 ? threads + secondary : maxThreads;
    c.primary_thread_busy_epoch_ = busy;
    return c;
}

// Registers n VNodes with the dependency masks of the world.
inline std::vector<GElementPtr> build(GPipelinePtr p, int n, const unsigned *pre) {
    std::vector<GElementPtr> e(n, nullptr);
    W->n = n;
    for (int i = 0; i < n; i++) {
        W->pre[i] = pre[i];
        GElementPtrSet d;
        for (int j = 0; j < i; j++) if (pre[i] >> j & 1) d.insert(e[j]);
        auto s = p->registerGElement<VNode>(&e[i], d, "n" + std::to_string(i));
        MC_ASSERT(s.isOK(), "register failed: %s", s.getInfo().c_str());
        static_cast<VNode *>(e[i])->vid = i;
    }
    return e;
}

// one run() with its oracle; returns the status
inline CStatus runOnce(GPipelinePtr p) {
    W->newRun();
    W->active.set(1);
    CStatus s;
    try { s += p->run(); }
    catch (const CException &e) { s += CStatus(internal::STATUS_CRASH, e.what()); }    // a crash may also surface as the exception
    W->active.set(0);
    if (W->checkData && W->checkActive) readAll(*W);
    return s;
}
inline void allRan() {
    for (int i = 0; i < W->n; i++) {
        long b = W->beg[i].peek() - W->base[i], f = W->fin[i].peek() - W->base[i];
        MC_ASSERT(b == W->loops[i] && f == W->loops[i], "run() returned success with element %d executed %ld/%ld times, expected %ld", i, f, b, W->loops[i]);
    }
}
inline void ok(const CStatus &s, const char *what) {
    MC_ASSERT(s.isOK(), "%s failed: [%d] %s", what, s.getCode(), s.getInfo().c_str());
}

// Decodes the k-th DAG over n nodes (edges j->i only for j<i).
inline void dag(int n, long k, unsigned *pre) {
    for (int i = 0; i < n; i++) { pre[i] = 0; for (int j = 0; j < i; j++) { if (k & 1) pre[i] |= 1u << j; k >>= 1; } }
}
inline unsigned closure(int n, const unsigned *pre, int i) {
    unsigned r = pre[i];
    for (int j = i - 1; j >= 0; j--) if (r >> j & 1) r |= closure(n, pre, j);
    (void)n;
    return r;
}
inline int dagCount(int n) { return 1 << (n * (n - 1) / 2); }

// Plain data that goes along with something handed from one thread to another: whoever receives it must be ordered after the giver.
struct Handover { long d[128] = {}; Handover() {} };
inline Handover &handover() { static Handover h; return h; }
inline void handoverStart() { mc_ordered(&handover(), sizeof(Handover)); }
__attribute__((noinline)) inline void give(long i) { if (i >= 0 && i < 128) handover().d[i] = i + 1; }
__attribute__((noinline)) inline void taken(long i) { if (i >= 0 && i < 128) MC_ASSERT(handover().d[i] == i + 1, "the data given along with %ld is not there", i); }

inline GEngineType engine(int i) { return i == 0 ? GEngineType::DYNAMIC : i == 1 ? GEngineType::STATIC : GEngineType::TOPO; }
}
#define VT_MAIN vt::World *vt::W = nullptr;
#define VT_WORLD mc_explore(0); vt::World vtw_; vt::W = &vtw_;
#endif
