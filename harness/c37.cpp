// C37: tasks that a node spawns are executed once, within its execution, wherever the node is; spawn() tells what became of them.
#include "common.h"
VT_MAIN
using namespace vt;
enum { MAXT_ = 4, NN = 6 };
static mc::Var ran[NN][MAXT_], over[NN], called[NN]; static int cbErr[NN]; static long delay[NN][MAXT_], out[NN][MAXT_], base0[NN][MAXT_]; static bool thr[NN][MAXT_]; static long want[NN];
static int tasks[NN]; static CMSec groupTtl[NN], argTtl[NN]; static bool callback[NN]; static bool pathological = false;
static const CMSec NEVER = CGRAPH_MAX_BLOCK_TTL;
__attribute__((noinline)) static long sum(int v, int n) { long s = 0; for (int i = 0; i < n; i++) s += out[v][i]; return s; }
static void zero() { for (int i = 0; i < NN; i++) { over[i].v = called[i].v = 0; cbErr[i] = 0; tasks[i] = 1; groupTtl[i] = argTtl[i] = NEVER; callback[i] = false; want[i] = 0; for (int j = 0; j < MAXT_; j++) ran[i][j].v = 0, delay[i][j] = 0, out[i][j] = 0, thr[i][j] = false; } mc_ordered(out, sizeof out); }
class SNode : public GNode { public: int vid = -1; bool match = true; CStatus got; long took = 0; bool inInit = false; CIndex index = -9;
    CStatus init() override { W->inits[vid]++; return inInit ? ask() : CStatus(); } CStatus destroy() override { W->dests[vid]++; return CStatus(); }
    CBool isMatch() override { return match; }
    // also called from outside
    CStatus ask() {
        int v = vid, n = tasks[v]; UTaskGroup g; g.setTtl(groupTtl[v]);
        for (int i = 0; i < n; i++) g.addTask([v, i] { if (W->checkActive) MC_ASSERT(W->beg[v].get() == W->fin[v].get() + 1, "task %d of node %d executes outside of the node's execution", i, v); MC_ASSERT(ran[v][i].add(1) <= W->beg[v].get() || !W->checkActive, "task %d of node %d executed twice", i, v); if (delay[v][i]) CGRAPH_SLEEP_MILLISECOND(delay[v][i]) else mc_point(); if (thr[v][i]) CGRAPH_THROW_EXCEPTION("task") out[v][i]++; over[v].add(1); });
        if (callback[v]) g.setOnFinished([v](const CStatus &s) { called[v].add(1); cbErr[v] = s.isErr(); });
        long t0 = mc_now_ms(); CStatus s = argTtl[v] == NEVER ? spawn(g) : spawn(g, argTtl[v]); took = mc_now_ms() - t0; return s; }
    CStatus run() override {
        enter(vid); if (W->checkDeps) for (int d = 0; d < W->n; d++) if (W->pre[vid] >> d & 1) sum(d, tasks[d]);
        index = getThreadIndex(); long before = over[vid].get(); long c0 = called[vid].get(); got = ask();
        int bad_ = 0; for (int i = 0; i < tasks[vid]; i++) bad_ += thr[vid][i];
        if (got.isOK()) { MC_ASSERT(over[vid].get() - before == tasks[vid] - bad_, "spawn() of node %d succeeded after %ld of %d tasks", vid, over[vid].get() - before, tasks[vid]); sum(vid, tasks[vid]); } else MC_ASSERT(pathological, "spawn() of node %d failed: [%d] %s", vid, got.getCode(), got.getInfo().c_str());
        if (callback[vid]) MC_ASSERT(called[vid].get() - c0 == 1 && cbErr[vid] == got.isErr(), "the group's callback was called %ld times", called[vid].get() - c0);
        MC_ASSERT(getThreadIndex() == index, "the node was on another thread before"); leave(vid); return CStatus(); } };
static void whole(int n) { for (int v = 0; v < n; v++) for (int i = 0; i < tasks[v]; i++) MC_ASSERT(ran[v][i].peek() == W->beg[v].peek(), "task %d of node %d was executed %ld times by %ld executions of the node", i, v, ran[v][i].peek(), W->beg[v].peek()); }
static SNode *sn(GElementPtr e) { return static_cast<SNode *>(e); }
static void reg(GPipelinePtr p, GElementPtr *e, int v, const GElementPtrSet &d, CSize loop = 1) { ok(p->registerGElement<SNode>(e, d, "n" + std::to_string(v), loop), "register"); sn(*e)->vid = v; W->loops[v] = loop; if (W->n <= v) W->n = v + 1; }
static bool onPool(CIndex i, int threads, int secondary) { return i == CGRAPH_MAIN_THREAD_ID || (i >= 0 && i < threads) || (secondary && i == CGRAPH_SECONDARY_THREAD_COMMON_ID); }
// every small graph and engine; as many threads as nodes can execute at once, and one more
MC_SCENARIO(graphs, 1, 1, 2, 2) {
    VT_WORLD zero(); unsigned pre[4]; int n = 2; dag(n, mc_choose(dagCount(n), "dag"), pre); int eng = mc_choose(3, "engine"); for (int i = 0; i < n; i++) tasks[i] = 2 * i + (i ? -1 : 1) * mc_choose(2, "tasks") + !i, callback[i] = i == 0; int batch = mc_choose(2, "batch"), th = 3 + batch, loop = 1 + mc_choose(2, "loop");
    auto p = GPipelineFactory::create(); auto c = cfg(th); c.batch_task_enable_ = batch; p->setUniqueThreadPoolConfig(c); p->setGEngineType(engine(eng)); std::vector<GElementPtr> e(n); for (int i = 0; i < n; i++) { GElementPtrSet d; W->pre[i] = pre[i]; for (int j = 0; j < i; j++) if (pre[i] >> j & 1) d.insert(e[j]); reg(p, &e[i], i, d, i ? 1 : loop); }
    ok(p->init(), "init"); for (int r = 0; r < 2; r++) { mc_explore(r == 0); ok(runOnce(p), "run"); mc_explore(0); allRan(); whole(n); for (int i = 0; i < n; i++) MC_ASSERT(onPool(sn(e[i])->index, th, 0), "index %d", sn(e[i])->index); } ok(p->destroy(), "destroy"); GPipelineFactory::remove(p);
}
// three nodes at once, with threads of both kinds
MC_SCENARIO(at_once, 1, 1, 2, 2) {
    VT_WORLD zero(); int n = 3, eng = mc_choose(2, "engine"); for (int i = 0; i < n; i++) tasks[i] = 1 + mc_choose(2, "tasks"); int sec = mc_choose(2, "secondary"); auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(4, sec)); p->setGEngineType(engine(eng)); std::vector<GElementPtr> e(n); for (int i = 0; i < n; i++) reg(p, &e[i], i, {});
    ok(p->init(), "init"); mc_explore(1); ok(runOnce(p), "run"); mc_explore(0); allRan(); whole(n); for (int i = 0; i < n; i++) MC_ASSERT(onPool(sn(e[i])->index, 4, sec), "index %d", sn(e[i])->index); ok(p->destroy(), "destroy"); GPipelineFactory::remove(p);
}
// members of groups, of every kind and at depth two
class SCond : public GCondition { public: CIndex choose() override { return 1; } }; class SMut : public GMutable { public: CStatus reshape(GElementPtrArr &ch) override { (*ch[0])-- > ch[1]; return CStatus(); } }; class SSome : public GSome { CSize getWaitNum() override { return 2; } };
MC_SCENARIO(groups, 1, 1, 2, 2) {
    VT_WORLD zero(); int kind = mc_choose(7, "kind"), deep = mc_choose(3, "around"), loop = kind == 6 || deep == 2 ? 1 : 1 + mc_choose(2, "loop"); auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(kind == 5 || kind == 6 ? 6 : 5));
    GElementPtrArr in; for (int i = 0; i < 2; i++) { tasks[i] = 2 - i; in.push_back(p->createGNode<SNode>(GNodeInfo("m" + std::to_string(i)))); sn(in[i])->vid = i; W->loops[i] = loop; } W->n = 2; GElementPtr g = nullptr; W->checkDeps = false;
    auto mk = [&](bool top) { CSize l = top ? 1 : loop; switch (kind) { case 0: g = p->createGGroup<GCluster>(in, {}, "g", l); break; case 1: g = p->createGGroup<GRegion>(in, {}, "g", l); break; case 2: g = p->createGGroup<SCond>(in, {}, "g", l); W->loops[0] = 0; break; case 3: g = p->createGGroup<GMultiCondition<GMultiConditionType::SERIAL>>(in, {}, "g", l); break; case 4: g = p->createGGroup<GMultiCondition<GMultiConditionType::PARALLEL>>(in, {}, "g", l); break; case 5: g = p->createGGroup<SMut>(in, {}, "g", l); break; default: g = p->createGGroup<SSome>(in, {}, "g", l); } };
    mk(!deep); GElementPtr top = g; CStatus s; if (deep == 1) { top = p->createGGroup<GCluster>({ g }); s = p->registerGElement<GCluster>(&top, {}, "t"); } else if (deep == 2) { top = p->createGGroup<GRegion>({ g }); s = p->registerGElement<GRegion>(&top, {}, "t"); }
    else switch (kind) { case 0: s = p->registerGElement<GCluster>(&top, {}, "g", loop); break; case 1: s = p->registerGElement<GRegion>(&top, {}, "g", loop); break; case 2: s = p->registerGElement<SCond>(&top, {}, "g", loop); break; case 3: s = p->registerGElement<GMultiCondition<GMultiConditionType::SERIAL>>(&top, {}, "g", loop); break; case 4: s = p->registerGElement<GMultiCondition<GMultiConditionType::PARALLEL>>(&top, {}, "g", loop); break; case 5: s = p->registerGElement<SMut>(&top, {}, "g", loop); break; default: s = p->registerGElement<SSome>(&top, {}, "g", loop); } ok(s, "register");
    for (int life = 0; life < 2; life++) { ok(p->init(), "init"); mc_explore(life == 0); ok(runOnce(p), "run"); mc_explore(0); allRan(); whole(2); ok(p->destroy(), "destroy"); } GPipelineFactory::remove(p);
}
// time limits of the group and of the call: told at the limit, the late tasks complete all the same
MC_SCENARIO(limits, 0, 0, 1, 1) {
    VT_WORLD zero(); W->checkActive = false; pathological = true; static const long D[] = { 0, 40, 200 }; int n = 1 + mc_choose(2, "tasks"); tasks[0] = n; long all = 0, one = 0; int th = 2 + mc_choose(2, "threads"); for (int i = 0; i < n; i++) { long d = delay[0][i] = D[mc_choose(3, "delay")]; all += d; if (d > one) one = d; } int w = mc_choose(4, "limit"); if (w == 1) groupTtl[0] = 100; else if (w == 2) argTtl[0] = 100; else if (w == 3) groupTtl[0] = 100, argTtl[0] = 1000; callback[0] = mc_choose(2, "callback");
    auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(th)); p->setGEngineType(engine(mc_choose(3, "engine"))); GElementPtr e = nullptr, e2 = nullptr; reg(p, &e, 0, {}); tasks[1] = 0; reg(p, &e2, 1, {}); ok(p->init(), "init"); mc_explore(1); W->checkData = false; ok(runOnce(p), "run"); mc_explore(0); auto *x = sn(e);
    if (!w) MC_ASSERT(x->got.isOK() && x->took >= one && x->took <= all, "without limit spawn() returns after %ld ms: %d", x->took, x->got.getCode()); else if (x->got.isOK()) MC_ASSERT(one <= 100 && x->took <= 100, "success after %ld ms", x->took); else MC_ASSERT(all > 100 && x->took == 100, "failure after %ld ms", x->took);
    if (one > 100 && w) MC_ASSERT(x->got.isErr(), "a task of %ld ms within the limit of 100", one); CGRAPH_SLEEP_MILLISECOND(1000) for (int i = 0; i < n; i++) MC_ASSERT(ran[0][i].peek() == 1, "late task %d executed %ld times", i, ran[0][i].peek()); MC_ASSERT(over[0].peek() == n, "late tasks"); ok(p->destroy(), "destroy"); GPipelineFactory::remove(p); pathological = false;
}
// a task that throws: the others, the node and the next run are not affected
MC_SCENARIO(throws, 1, 1, 2, 2) {
    VT_WORLD zero(); int n = 1 + mc_choose(3, "tasks"), x = mc_choose(n, "throws"); tasks[0] = n; thr[0][x] = true; auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(2)); p->setGEngineType(engine(mc_choose(3, "engine"))); GElementPtr e = nullptr; reg(p, &e, 0, {}); ok(p->init(), "init"); for (int r = 0; r < 2; r++) { mc_explore(r == 0); ok(runOnce(p), "run"); mc_explore(0); allRan(); whole(1); thr[0][x] = false; } ok(p->destroy(), "destroy"); GPipelineFactory::remove(p);
}
// two pipelines that share a pool, which is used otherwise as well
MC_SCENARIO(shared, 1, 1, 2, 2) {
    VT_WORLD zero(); W->checkActive = false; { UThreadPool pool(true, cfg(3)); GPipelinePtr p[2]; GElementPtr e[2]; for (int k = 0; k < 2; k++) { p[k] = GPipelineFactory::create(); p[k]->setSharedThreadPool(&pool); e[k] = nullptr; reg(p[k], &e[k], k, {}); tasks[k] = 1 + k; ok(p[k]->init(), "init"); } mc_explore(1); std::thread t([&] { ok(p[1]->run(), "run of the other"); }); ok(p[0]->run(), "run"); t.join(); mc_explore(0); for (int k = 0; k < 2; k++) for (int i = 0; i < tasks[k]; i++) MC_ASSERT(ran[k][i].peek() == 1, "task %d of pipeline %d executed %ld times", i, k, ran[k][i].peek()); for (auto *q : p) { ok(q->destroy(), "destroy"); GPipelineFactory::remove(q); } }
}
// a pipeline without threads executes them in the node's thread
MC_SCENARIO(serial, 1, 1, 1, 1) {
    VT_WORLD zero(); int n = 2; for (int i = 0; i < n; i++) tasks[i] = mc_choose(4, "tasks"), callback[i] = true; auto p = GPipelineFactory::create(); GElementPtr e[2] = {}; reg(p, &e[0], 0, {}, 1 + mc_choose(2, "loop")); W->pre[1] = 1; reg(p, &e[1], 1, { e[0] }); ok(p->makeSerial(), "makeSerial"); ok(p->init(), "init"); MC_ASSERT(mc_live_threads() == 0, "%d threads", mc_live_threads()); for (int r = 0; r < 2; r++) { mc_explore(1); ok(runOnce(p), "run"); mc_explore(0); allRan(); whole(n); } ok(p->destroy(), "destroy"); GPipelineFactory::remove(p);
}
// only an initialised node can spawn
MC_SCENARIO(refused, 0, 0, 0, 0) {
    VT_WORLD zero(); W->checkActive = false; int where = mc_choose(3, "where"); tasks[0] = 2; callback[0] = true; auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(3)); GElementPtr e = nullptr, g = nullptr; W->n = 1; if (!where) reg(p, &e, 0, {}); else { e = p->createGNode<SNode>(GNodeInfo("m")); sn(e)->vid = 0; if (where == 1) { g = p->createGGroup<GCluster>({ e }); ok(p->registerGElement<GCluster>(&g), "register"); } else { g = p->createGGroup<GRegion>({ e }); ok(p->registerGElement<GRegion>(&g), "register"); } }
    auto no = [&](const char *w) { long b = over[0].peek(); bool r; try { r = sn(e)->ask().isErr(); } catch (const CException &) { r = true; } MC_ASSERT(r && over[0].peek() == b && called[0].peek() == 0, "spawn() %s", w); }; no("before init()"); int life = 1 + mc_choose(2, "lives"); for (int l = 0; l < life; l++) { ok(p->init(), "init"); callback[0] = false; ok(runOnce(p), "run"); ok(sn(e)->got, "spawn() of an initialised node"); callback[0] = true; ok(p->destroy(), "destroy"); no("after destroy()"); } GPipelineFactory::remove(p);
}
