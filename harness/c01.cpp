// C01: dependency order and exactly-once execution, for every graph shape, engine, pool configuration and schedule.
#include "common.h"
VT_MAIN
using namespace vt;

struct Opt { int threads = 2, secondary = 0, busy = 1, eng = 0, runs = 1, waitBusy = 0; bool batch = false, deliver = false; unsigned macro = 0; int bind = 0; long loops = 1; bool serial = false; };

static void runGraph(int n, const unsigned *pre, const Opt &o) {
    auto p = GPipelineFactory::create();
    auto c = cfg(o.threads, o.secondary, o.busy);
    c.batch_task_enable_ = o.batch; c.deliver_running_primary_thread_enable_ = o.deliver; c.pipeline_wait_busy_epoch_ = o.waitBusy;
    p->setUniqueThreadPoolConfig(c);
    p->setGEngineType(engine(o.eng));
    auto e = build(p, n, pre);
    for (int i = 0; i < n; i++) {
        if (o.macro >> i & 1) e[i]->setMacro(true);
        if (o.bind == 1) e[i]->setBindingIndex(i % 2);
        if (o.bind == 2) e[i]->setBindingIndex(0);
        if (o.bind == 3 && i % 2) e[i]->setBindingIndex(1);
        if (o.loops > 1 && i % 2) { e[i]->setLoop(o.loops); W->loops[i] = o.loops; }
    }
    if (o.eng == 2 || o.serial) W->serial = true;
    ok(p->init(), "init");
    for (int r = 0; r < o.runs; r++) {
        mc_explore(1);
        auto s = runOnce(p);
        mc_explore(0);
        ok(s, "run");
        allRan();
    }
    ok(p->destroy(), "destroy");
    GPipelineFactory::remove(p);
}

// every DAG over 4 elements
static void all4(int eng, int threads) {
    VT_WORLD
    int k = mc_choose(dagCount(4), "dag"); unsigned pre[8]; dag(4, k, pre);
    Opt o; o.eng = eng; o.threads = threads;
    runGraph(4, pre, o);
}
MC_SCENARIO(all_dags4_dynamic, 1, 1, 2, 2) { all4(0, 2); }
MC_SCENARIO(all_dags4_static, 1, 1, 2, 2) { all4(1, 2); }
MC_SCENARIO(all_dags4_dynamic_3threads, 1, 1, 1, 2) { all4(0, 3); }
MC_SCENARIO(all_dags4_topo, 0, 0, 1, 1) { all4(2, 1); }
// every DAG over 5 elements, every engine, two pool sizes, default schedule and single deviations
MC_SCENARIO(all_dags5_engines, 0, 0, 1, 1) {
    VT_WORLD
    Opt o; o.eng = mc_choose(3, "engine"); o.threads = 1 + mc_choose(2, "threads");
    int k = mc_choose(dagCount(5), "dag"); unsigned pre[8]; dag(5, k, pre);
    runGraph(5, pre, o);
}
// every DAG over 3 elements, every combination of thread binding / loops / macros, twice in a row
MC_SCENARIO(all_dags3_options, 1, 1, 2, 2) {
    VT_WORLD
    Opt o; o.eng = mc_choose(2, "engine"); o.bind = mc_choose(4, "bind"); o.loops = 1 + mc_choose(2, "loops"); o.runs = 2;
    if (o.eng == 1) o.macro = mc_choose(8, "macro");
    int k = mc_choose(dagCount(3), "dag"); unsigned pre[8]; dag(3, k, pre);
    runGraph(3, pre, o);
}
// the classic shapes, deeper
static const unsigned DIAMOND[] = { 0, 1, 1, 6 };
static const unsigned DIAMOND2[] = { 0, 1, 1, 6, 8, 8 };
static const unsigned BIPART[] = { 0, 0, 3, 3 };
static const unsigned WTREE[] = { 0, 1, 1, 2, 2, 4, 8 | 16 | 32 };
static const unsigned PAR[] = { 0, 0, 0, 0, 0 };
static const unsigned CHAIN2[] = { 0, 1, 0, 4 };
MC_SCENARIO(diamond, 2, 2, 3, 3) { VT_WORLD Opt o; runGraph(4, DIAMOND, o); }
MC_SCENARIO(diamond_static, 2, 2, 3, 3) { VT_WORLD Opt o; o.eng = 1; runGraph(4, DIAMOND, o); }
MC_SCENARIO(diamond_tails, 1, 1, 2, 2) { VT_WORLD Opt o; o.runs = 2; runGraph(6, DIAMOND2, o); }
MC_SCENARIO(bipartite, 2, 2, 3, 3) { VT_WORLD Opt o; runGraph(4, BIPART, o); }
MC_SCENARIO(two_chains, 2, 2, 3, 3) { VT_WORLD Opt o; runGraph(4, CHAIN2, o); }
MC_SCENARIO(wide_tree, 1, 1, 2, 2) { VT_WORLD Opt o; o.threads = 3; runGraph(7, WTREE, o); }
// independent elements: more and fewer than threads, several runs, with and without spinning before the final wait
MC_SCENARIO(parallel, 1, 1, 2, 2) {
    VT_WORLD Opt o; o.threads = 1 + mc_choose(3, "threads"); o.waitBusy = mc_choose(2, "wait busy"); o.runs = 2;
    runGraph(1 + mc_choose(5, "elements"), PAR, o);
}
MC_SCENARIO(parallel_secondary, 1, 1, 2, 2) {
    VT_WORLD Opt o; o.threads = 1 + mc_choose(2, "threads"); o.secondary = 1; o.runs = 2; o.bind = mc_choose(2, "bind");
    runGraph(2 + mc_choose(3, "elements"), PAR, o);
}
// pool options: batch fetch, delivery to running threads, busy epochs, secondary threads
MC_SCENARIO(pool_options, 1, 1, 2, 2) {
    VT_WORLD Opt o; o.batch = mc_choose(2, "batch"); o.deliver = mc_choose(2, "deliver"); o.busy = mc_choose(3, "busy"); o.secondary = mc_choose(2, "secondary");
    o.waitBusy = mc_choose(2, "wait busy");
    static const unsigned *G[] = { DIAMOND, BIPART, PAR }; runGraph(4, G[mc_choose(3, "graph")], o);
}
MC_SCENARIO(batch_wide, 1, 1, 2, 2) {
    VT_WORLD Opt o; o.batch = true; o.eng = mc_choose(2, "engine");
    static const unsigned FAN[] = { 0, 1, 1, 1, 1, 30 }; runGraph(6, FAN, o);
}
// registration through the other front doors: operators, createGNode + registerGNode
MC_SCENARIO(front_doors, 1, 1, 2, 2) {
    VT_WORLD
    auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(2)); p->setGEngineType(engine(mc_choose(3, "engine")));
    W->n = 4; for (int i = 0; i < 4; i++) W->pre[i] = DIAMOND[i];
    GElementPtr e[4];
    int how = mc_choose(3, "how");
    for (int i = 0; i < 4; i++) {
        if (how == 0) { auto *x = p->createGNode<VNode>(GNodeInfo("n" + std::to_string(i))); x->vid = i; e[i] = x; ok(p->registerGNode(&e[i]), "registerGNode"); }
        else if (how == 1) { auto *x = p->registerGNode<VNode>(); x->vid = i; e[i] = x; }
        else { GElementPtrSet d; for (int j = 0; j < i; j++) if (DIAMOND[i] >> j & 1) d.insert(e[j]); auto *x = p->registerGNode<VNode>(d, "n", 2); x->vid = i; e[i] = x; W->loops[i] = 2; }
    }
    if (how == 0) { (*e[0])--; *e[0] > e[1]; *e[0] > e[2]; *e[1] > e[3]; *e[2] > e[3]; }
    if (how == 1) { ok(e[1]->addDependGElements({ e[0] }), "dep"); ok(e[2]->addDependGElements({ e[0] }), "dep"); ok(e[3]->addDependGElements({ e[1], e[2] }), "dep"); }
    ok(p->init(), "init");
    for (int r = 0; r < 2; r++) { mc_explore(1); auto s = runOnce(p); mc_explore(0); ok(s, "run"); allRan(); }
    ok(p->destroy(), "destroy"); GPipelineFactory::remove(p);
}
// a dependency removed again before init() no longer orders; the others still do
MC_SCENARIO(remove_depend, 1, 1, 2, 2) {
    VT_WORLD
    auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(2)); p->setGEngineType(engine(mc_choose(2, "engine")));
    auto e = build(p, 4, DIAMOND);
    int w = mc_choose(4, "edge"); static const int A[] = { 1, 2, 3, 3 }, B[] = { 0, 0, 1, 2 };
    ok(e[A[w]]->removeDepend(e[B[w]]), "removeDepend"); W->pre[A[w]] &= ~(1u << B[w]);
    ok(p->init(), "init"); mc_explore(1); auto s = runOnce(p); mc_explore(0); ok(s, "run"); allRan();
    ok(p->destroy(), "destroy"); GPipelineFactory::remove(p);
}
// serial execution without pool threads
MC_SCENARIO(make_serial, 1, 1, 1, 1) {
    VT_WORLD
    auto p = GPipelineFactory::create(); unsigned pre[] = { 0, 1, 2, 4 }; W->serial = true;
    auto e = build(p, 4, pre); ok(p->makeSerial(), "makeSerial"); ok(p->init(), "init");
    MC_ASSERT(mc_live_threads() == 0, "serial pipeline started %d threads", mc_live_threads());
    mc_explore(1); auto s = runOnce(p); mc_explore(0); ok(s, "run"); allRan();
    ok(p->destroy(), "destroy"); GPipelineFactory::remove(p);
}
