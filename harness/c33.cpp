// C33: pipelines that share a thread pool do not affect each other or the pool.
#include "common.h"
VT_MAIN
using namespace vt;

// Pipeline q has the elements q*4 .. q*4+n-1 of the world.
enum { STRIDE = 4 };
static int size_[4]; static mc::Var gate, reached;
class SNode : public GNode {
public:
    int vid = -1; static bool hold[MAXN];
    CStatus init() override { W->inits[vid]++; return CStatus(); }
    CStatus destroy() override { W->dests[vid]++; return CStatus(); }
    CStatus run() override {
        enter(vid); touch(*W, vid); mc_point();
        if (hold[vid]) { reached.set(1); while (!gate.get()) std::this_thread::yield(); }
        int a = W->act[vid]; leave(vid);
        if (a == ERR) return CStatus(-100 - vid, "err" + std::to_string(vid));
        if (a == THROW) CGRAPH_THROW_EXCEPTION("thr" + std::to_string(vid))
        return CStatus();
    }
};
bool SNode::hold[MAXN];
static void start() { W->checkActive = false; gate.v = reached.v = 0; for (auto &h : SNode::hold) h = false; for (auto &s : size_) s = 0; W->n = MAXN; }
static GPipelinePtr make(int q, UThreadPool *pool, const unsigned *pre, int n, int eng) {
    auto p = GPipelineFactory::create(); p->setSharedThreadPool(pool); p->setGEngineType(engine(eng)); size_[q] = n;
    GElementPtrArr e(n, nullptr);
    for (int i = 0; i < n; i++) {
        GElementPtrSet d; W->pre[q * STRIDE + i] = pre[i] << (q * STRIDE);
        for (int j = 0; j < i; j++) if (pre[i] >> j & 1) d.insert(e[j]);
        ok(p->registerGElement<SNode>(&e[i], d, "n" + std::to_string(i)), "register"); static_cast<SNode *>(e[i])->vid = q * STRIDE + i;
    }
    return p;
}
static CStatus one(int q, GPipelinePtr p) {     // one run of pipeline q
    for (int i = q * STRIDE; i < q * STRIDE + size_[q]; i++) W->base[i] = W->beg[i].peek();
    CStatus s; try { s += p->run(); } catch (const CException &e) { s += CStatus(internal::STATUS_CRASH, e.what()); }
    return s;
}
static void whole(int q, const CStatus &s) {
    MC_ASSERT(s.isOK(), "the run of pipeline %d returned [%d] %s", q, s.getCode(), s.getInfo().c_str());
    for (int i = q * STRIDE; i < q * STRIDE + size_[q]; i++) MC_ASSERT(W->fin[i].peek() - W->base[i] == 1 && W->beg[i].peek() - W->base[i] == 1, "element %d of pipeline %d executed %ld times", i % STRIDE, q, W->fin[i].peek() - W->base[i]);
    for (int i = q * STRIDE; i < q * STRIDE + size_[q]; i++) W->data[i]++;      // the user reads and writes what the elements wrote
}
static void failed(int q, const CStatus &s, int bad) {
    MC_ASSERT(W->act[bad] == THROW ? s.isCrash() : s.getCode() == -100 - bad, "the run of pipeline %d returned [%d] %s", q, s.getCode(), s.getInfo().c_str());
    MC_ASSERT(s.getInfo().find((W->act[bad] == THROW ? "thr" : "err") + std::to_string(bad)) != std::string::npos, "the run of pipeline %d reports another pipeline's failure: %s", q, s.getInfo().c_str());
    for (int i = q * STRIDE; i < q * STRIDE + size_[q]; i++) MC_ASSERT(W->fin[i].peek() == W->beg[i].peek(), "element %d of pipeline %d still executes after run() returned", i % STRIDE, q);
}
static void expect(int q, const CStatus &s) {
    for (int i = q * STRIDE; i < q * STRIDE + size_[q]; i++) if (bad(i)) { failed(q, s, i); return; }
    whole(q, s);
}
static UThreadPool *poolOf(int threads, int secondary = 0) { return new UThreadPool(true, cfg(threads, secondary)); }
static void usable(UThreadPool *pool) {     // the pool still executes tasks
    int v = 0; auto f = pool->commit([&v] { v = 7; return 1; }); MC_ASSERT(f.get() == 1 && v == 7, "the pool lost a task");
}
static void end(UThreadPool *pool, std::initializer_list<GPipelinePtr> ps, int threads) {
    for (auto *p : ps) {
        ok(p->destroy(), "destroy"); GPipelineFactory::remove(p);
        MC_ASSERT(pool->isInit() && mc_live_threads() == threads, "the shared pool has %d threads after a pipeline was destroyed, expected %d", mc_live_threads(), threads);
    }
    usable(pool); delete pool;
}
static const unsigned PAR[] = { 0, 0 }, CHAIN[] = { 0, 1 }, JOIN[] = { 0, 0, 3 }, FORK[] = { 0, 1, 1 }, DIAMOND[] = { 0, 1, 1, 6 };
static const unsigned *G[] = { PAR, CHAIN, JOIN, FORK, DIAMOND }; static const int GN[] = { 2, 2, 3, 3, 4 };

static void two(int graphs, int threads, int secondary, int rounds, int b0, int b1, int e1) {
    int g0 = mc_choose(graphs, "graph"), g1 = mc_choose(graphs, "graph 2"), e0 = mc_choose(3, "engine");
    if (e1 < 0) e1 = mc_choose(3, "engine 2");
    auto *pool = poolOf(threads, secondary);
    auto a = make(0, pool, G[g0], GN[g0], e0), b = make(1, pool, G[g1], GN[g1], e1);
    ok(a->init(), "init"); ok(b->init(), "init");
    if (b0) W->act[GN[g0] > 2 ? 1 : 0] = b0;
    if (b1) W->act[STRIDE] = b1;
    mc_explore(1);
    std::thread t([&] { for (int r = 0; r < rounds; r++) { auto s = one(1, b); expect(1, s); } });
    for (int r = 0; r < rounds; r++) { auto s = one(0, a); expect(0, s); }
    t.join(); mc_explore(0);
    for (auto &x : W->act) x = OK;
    whole(0, one(0, a)); whole(1, one(1, b));
    end(pool, { a, b }, threads);
}
MC_SCENARIO(concurrent, 1, 1, 2, 2) { VT_WORLD start(); two(3, 2, 0, 1, OK, OK, -1); }
MC_SCENARIO(concurrent_1, 1, 1, 2, 2) { VT_WORLD start(); two(5, 1, 0, 1, OK, OK, 0); }
MC_SCENARIO(concurrent_secondary, -1, -1, 1, 1) { VT_WORLD start(); two(5, 1, 1, 2, OK, OK, -1); }
MC_SCENARIO(concurrent_graphs, -1, -1, 1, 1) { VT_WORLD start(); two(5, 2, 0, 1, OK, OK, -1); }
MC_SCENARIO(one_fails, 1, 1, 2, 2) { VT_WORLD start(); two(3, 2, 0, 1, mc_choose(2, "how") ? THROW : ERR, OK, 0); }
MC_SCENARIO(both_fail, 1, 1, 2, 2) { VT_WORLD start(); int h = mc_choose(2, "how"); two(2, 2, 0, 1, h ? THROW : ERR, h ? ERR : THROW, 0); }
// one pipeline is cancelled, suspended and resumed, destroyed or created while the other one runs
MC_SCENARIO(other_life, 1, 1, 2, 2) {
    VT_WORLD start(); int what = mc_choose(5, "what"), eng = mc_choose(3, "engine"), g = mc_choose(3, "graph");
    auto *pool = poolOf(2); auto a = make(0, pool, G[g], GN[g], eng), b = make(1, pool, CHAIN, 2, 0); GPipelinePtr c = nullptr;
    ok(a->init(), "init"); if (what != 3) ok(b->init(), "init");
    mc_explore(1);
    std::thread t([&] {
        switch (what) {
        case 0: ok(b->cancel(), "cancel"); break;
        case 1: ok(b->suspend(), "suspend"); ok(b->resume(), "resume"); break;
        case 2: ok(b->destroy(), "destroy"); break;
        case 3: ok(b->init(), "init"); whole(1, one(1, b)); break;
        case 4: GPipelineFactory::remove(b); b = nullptr; break;     // removed without having been destroyed
        }
    });
    whole(0, one(0, a)); t.join(); mc_explore(0);
    whole(0, one(0, a));
    if (what == 2) ok(b->init(), "init");
    if (what == 4) end(pool, { a }, 2); else { whole(1, one(1, b)); end(pool, { a, b }, 2); }
}
// an element of one pipeline keeps a thread of the pool busy: the other one proceeds on the rest
MC_SCENARIO(one_blocks, 1, 1, 2, 2) {
    VT_WORLD start(); int eng = mc_choose(3, "engine"), g = mc_choose(5, "graph");
    auto *pool = poolOf(2); auto a = make(0, pool, G[g], GN[g], eng), b = make(1, pool, PAR, 2, mc_choose(2, "engine 2"));
    SNode::hold[STRIDE] = true; ok(a->init(), "init"); ok(b->init(), "init");
    std::thread t([&] { whole(1, one(1, b)); });
    while (!reached.get()) std::this_thread::yield();
    mc_explore(1); whole(0, one(0, a)); mc_explore(0);
    gate.set(1); t.join(); SNode::hold[STRIDE] = false;
    end(pool, { a, b }, 2);
}
// the user's own tasks and groups of tasks in the same pool
MC_SCENARIO(users_tasks, 1, 1, 2, 2) {
    VT_WORLD start(); int eng = mc_choose(3, "engine"), g = mc_choose(3, "graph"), kind = mc_choose(3, "tasks");
    auto *pool = poolOf(2); auto a = make(0, pool, G[g], GN[g], eng); ok(a->init(), "init");
    long v[2] = {};
    mc_explore(1);
    std::thread t([&] {
        if (kind == 0) { auto f = pool->commit([&v] { v[0]++; return 1; }); auto h = pool->commit([&v] { v[1]++; return 2; }); MC_ASSERT(f.get() + h.get() == 3, "wrong results of the tasks"); }
        if (kind == 1) { UTaskGroup tg; tg.addTask([&v] { v[0]++; }); tg.addTask([&v] { v[1]++; }); ok(pool->submit(tg), "submit"); }
        if (kind == 2) { auto f = pool->commitWithPriority([&v] { v[0]++; return 1; }, 5); v[1]++; f.get(); }
        MC_ASSERT(v[0] == 1 && v[1] == 1, "the tasks executed %ld and %ld times", v[0], v[1]);
    });
    whole(0, one(0, a)); t.join(); mc_explore(0);
    end(pool, { a }, 2);
}
// which pool a pipeline uses, over every sequence of choices
static mc::Var onPool, elsewhere; static unsigned poolTids;
class WNode : public GNode { public: CStatus run() override { (poolTids >> mc_tid() & 1 ? onPool : elsewhere).add(1); return CStatus(); } };
MC_SCENARIO(which_pool, 0, 0, 0, 0) {
    mc_explore(0); vt::World w_; W = &w_;
    auto *pool = new UThreadPool(false, cfg(1)); bool up = false, shared = false, init = false; int own = 2, n0 = 3;
    auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(2)); p->setGEngineType(engine(mc_choose(3, "engine")));
    GElementPtr e[3] = {}; for (auto &x : e) ok(p->registerGElement<WNode>(&x), "register");
    for (int d = 0; d < 5; d++) {
        int op = mc_choose(7, "operation"); CStatus s; bool threw = false;
        try { switch (op) {
        case 0: p->setSharedThreadPool(pool); break;
        case 1: p->setSharedThreadPool(nullptr); break;
        case 2: p->setUniqueThreadPoolConfig(cfg(3)); break;
        case 3: s = p->init(); break;
        case 4: onPool.v = elsewhere.v = 0; s = p->run(); break;
        case 5: s = p->destroy(); break;
        case 6: if (init) mc_discard(); if (!up) { poolTids = 0; ok(pool->init(), "init"); up = true; int t = -1; auto f = pool->commit([&t] { t = mc_tid(); return 0; }); f.get(); poolTids = 1u << t; } else { ok(pool->destroy(), "destroy"); up = false; } break;
        } } catch (const CException &) { threw = true; }
        if (op <= 2) { MC_ASSERT(threw == init, "a change of the pool was %s while the pipeline was %sinitialised", threw ? "refused" : "accepted", init ? "" : "not "); if (!init) { if (op == 0) shared = true; if (op == 1) shared = false; if (op == 2) own = 3; } }
        if (op == 3) { bool good = !init && (!shared || up); MC_ASSERT(s.isOK() == good, "init() with %s returned [%d] %s", shared ? up ? "a shared pool" : "a shared pool that is not initialised" : "its own pool", s.getCode(), s.getInfo().c_str()); if (good) init = true; }
        if (op == 4) { MC_ASSERT(s.isOK() == init, "run() returned %d", s.getCode()); MC_ASSERT(onPool.peek() + elsewhere.peek() == (init ? n0 : 0), "%ld elements executed", onPool.peek() + elsewhere.peek()); if (!shared && init) MC_ASSERT(onPool.peek() == 0, "an element executed in a pool that is not the pipeline's"); }
        if (op == 5) { MC_ASSERT(s.isOK() == init, "destroy() returned %d", s.getCode()); init = false; }
        int live = mc_live_threads(), want = (up ? 1 : 0) + (init && !shared ? own : 0);
        MC_ASSERT(live == want, "%d threads exist after operation %d, expected %d", live, op, want);
        MC_ASSERT(pool->isInit() == up, "the pipeline changed the pool");
    }
    GPipelineFactory::remove(p); MC_ASSERT(mc_live_threads() == (up ? 1 : 0), "removing the pipeline left or ended threads");
    if (up) usable(pool);
    delete pool;
}
