// C18: events: triggered exactly once, and awaited as their strategy says.
#include "common.h"
#include <mutex>
#include <condition_variable>
#include <thread>
#include <chrono>
#include <map>
VT_MAIN
using namespace vt;
enum { SYNC, FINISH, DESTROY, NOWAIT, AFUT, AFUT_DESTROY, NKIND };
static long need[2]; static int made;
static mc::Var asked[2], started[2], done[2], destroyed; static int evInit, evDest, evDead, failInit, throwing; static bool elementsGone;
struct EP : public GEventParam { int k = -1; std::string s; CVoid clone(GPassedParam *p) override { auto *x = dynamic_cast<EP *>(p); k = x->k; s = x->s; } };
struct Sh : public GParam { int v = 7; };
class Ev : public GEvent { public: CStatus init() override { evInit++; return failInit ? CStatus(-41, "evinit") : CStatus(); } CStatus destroy() override { evDest++; if (id < 2) MC_ASSERT(done[id].get() >= need[id], "event %d is terminated after %ld executions, %ld are to be awaited", id, done[id].peek(), need[id]); return CStatus(); } int id = made++; ~Ev() override { evDead++; }
    CVoid trigger(GEventParamPtr p) override { auto *x = dynamic_cast<EP *>(p); MC_ASSERT(x && x->s == "ev" + std::to_string(x->k), "an event lost its parameter"); MC_ASSERT(!destroyed.get(), "event %d executes after destroy() returned", x->k); started[x->k].add(1); auto *g = getGParam<Sh>("p"); MC_ASSERT(g && g->v == 7, "an event does not find the parameter"); mc_point(); done[x->k].add(1); if (throwing) CGRAPH_THROW_EXCEPTION("evthr") } };
struct Op { int kind, key; };
class N : public GNode { public: int vid = -1; std::vector<Op> ops; std::vector<std::shared_future<CVoid>> fut;
    CStatus run() override { for (auto &o : ops) { std::string k = "e" + std::to_string(o.key); asked[o.key].add(1); long d0 = done[o.key].peek(); (void)d0;
            if (o.kind == SYNC) { ok(notify(k, GEventType::SYNC), "notify"); MC_ASSERT(done[o.key].get() >= 1 + mine[o.key], "notify returned before the event was executed"); mine[o.key]++; }
            else if (o.kind == AFUT) fut.push_back(asyncNotify(k)); else if (o.kind == AFUT_DESTROY) fut.push_back(asyncNotify(k, GEventAsyncStrategy::PIPELINE_DESTROY));
            else ok(notify(k, GEventType::ASYNC, o.kind == FINISH ? GEventAsyncStrategy::PIPELINE_RUN_FINISH : o.kind == DESTROY ? GEventAsyncStrategy::PIPELINE_DESTROY : GEventAsyncStrategy::NO_WAIT), "notify"); }
        MC_ASSERT(notify("nokey", GEventType::ASYNC).isErr() && notify("nokey", GEventType::SYNC).isErr(), "an unknown event was accepted"); bool thr = false; try { asyncNotify("nokey"); } catch (const CException &) { thr = true; } MC_ASSERT(thr, "an unknown event was accepted"); return CStatus(); }
    long mine[2] = { 0, 0 }; };
struct Pipe { GPipelinePtr p; GElementPtr e[3] = {}; UThreadPool *shared = nullptr; int n;
    Pipe(int n, int eng, int threads, bool chain, bool sh = false) : n(n) { for (int i = 0; i < 2; i++) asked[i].v = started[i].v = done[i].v = 0; destroyed.v = 0; evInit = evDest = evDead = failInit = throwing = made = 0; need[0] = need[1] = 0; p = GPipelineFactory::create(); if (sh) { shared = new UThreadPool(true, cfg(threads)); p->setSharedThreadPool(shared); } else p->setUniqueThreadPoolConfig(cfg(threads)); p->setGEngineType(engine(eng)); ok(p->createGParam<Sh>("p"), "parameter");
        for (int i = 0; i < 2; i++) { EP a; a.k = i; a.s = "ev" + std::to_string(i); p->addGEvent<Ev>("e" + std::to_string(i), &a); a.s = "gone"; } bool thr = false; try { EP a; p->addGEvent<Ev>("e0", &a); } catch (const CException &) { thr = true; } MC_ASSERT(thr, "a second event with the same key was accepted");
        for (int i = 0; i < n; i++) { GElementPtrSet d; if (chain && i) d = { e[i - 1] }; ok(p->registerGElement<N>(&e[i], d, "n" + std::to_string(i)), "register"); } }
    N *at(int i) { return static_cast<N *>(e[i]); }
    void destroy() { ok(p->destroy(), "destroy"); destroyed.set(1); }
    void end() { GPipelineFactory::remove(p); MC_ASSERT(evDead == 2, "%d of 2 events were freed", evDead); if (shared) { ok(shared->destroy(), "pool"); delete shared; } } };
// what has been asked for with a given kind, at most and at least executed
struct Count { long all[2] = {}, finish[2] = {}, dest[2] = {}; void add(const Op &o) { all[o.key]++; if (o.kind == SYNC || o.kind == FINISH || o.kind == AFUT) finish[o.key]++; if (o.kind != NOWAIT) dest[o.key]++; } };
static void triggers(int n, int nops, int runs, bool sh) {
    VT_WORLD Pipe q(n, mc_choose(sh ? 2 : 3, "engine"), sh || n == 1 ? 2 : 1 + mc_choose(2, "threads"), !sh && (n > 2 || runs > 1) && mc_choose(2, "chain"), sh); Count c;
    for (int i = 0; i < n; i++) for (int k = 0; k < nops; k++) { Op o{ i && nops > 1 ? q.at(0)->ops[1 - k].kind : mc_choose(NKIND, "kind"), k ? mc_choose(2, "key") : i % 2 }; q.at(i)->ops.push_back(o); }
    ok(q.p->init(), "init"); MC_ASSERT(evInit == 2, "%d event initialisations", evInit);
    for (int r = 0; r < runs; r++) { for (int i = 0; i < n; i++) for (auto &o : q.at(i)->ops) c.add(o); mc_explore(1); CStatus s = runOnce(q.p); ok(s, "run");
        for (int k = 0; k < 2; k++) { long d = done[k].get(), st = started[k].get(); MC_ASSERT(st <= c.all[k], "event %d was executed %ld times for %ld triggers", k, st, c.all[k]); MC_ASSERT(d >= c.finish[k], "run() returned with event %d executed %ld times although %ld triggers are to be finished with the run", k, d, c.finish[k]); } }
    for (int k = 0; k < 2; k++) need[k] = c.dest[k]; q.destroy(); mc_explore(0);
    for (int k = 0; k < 2; k++) { MC_ASSERT(done[k].get() >= c.dest[k] && started[k].peek() <= c.all[k], "destroy() returned with event %d executed %ld/%ld times for %ld triggers, %ld of them to be finished", k, done[k].peek(), started[k].peek(), c.all[k], c.dest[k]); }
    for (int i = 0; i < n; i++) for (auto &f : q.at(i)->fut) { MC_ASSERT(f.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "a future is not ready although the event was executed"); f.get(); }
    MC_ASSERT(evDest == 2, "%d event terminations", evDest); q.end();
}
MC_SCENARIO(one_each, 1, 1, 2, 2) { triggers(2, 1, 1, false); }
MC_SCENARIO(two_each, 0, 0, 1, 1) { triggers(2, 2, 2, false); }
MC_SCENARIO(one_element, 1, 1, 3, 3) { triggers(1, 2, 1, false); }
MC_SCENARIO(shared_pool, 1, 1, 2, 2) { triggers(2, 1, 2, true); }
MC_SCENARIO(three_elements, 0, 0, 1, 1) { triggers(3, 1, 1, false); }
// the same event from two elements at the same time
MC_SCENARIO(same_key, 1, 1, 3, 3) {
    VT_WORLD Pipe q(2, mc_choose(2, "engine"), 2, false); int k = mc_choose(NKIND, "kind"); Count c; for (int i = 0; i < 2; i++) { Op o{ k, 0 }; q.at(i)->ops = { o }; c.add(o); } ok(q.p->init(), "init"); mc_explore(1); CStatus s = runOnce(q.p); ok(s, "run"); MC_ASSERT(done[0].get() >= c.finish[0] && started[0].get() <= 2, "executed %ld times", done[0].peek()); need[0] = c.dest[0]; q.destroy(); mc_explore(0); MC_ASSERT(done[0].get() >= c.dest[0] && started[0].peek() <= 2, "executed %ld times", done[0].peek()); q.end();
}
// run() does not wait for events it is not asked to wait for
static mc::Var go;
class Held : public GEvent { public: CVoid trigger(GEventParamPtr) override { started[0].add(1); while (!go.get()) std::this_thread::sleep_for(std::chrono::milliseconds(10)); done[0].add(1); } };
class HN : public GNode { public: int kind = 0; CStatus run() override { if (kind == AFUT_DESTROY) { asyncNotify("h", GEventAsyncStrategy::PIPELINE_DESTROY); return CStatus(); } return notify("h", GEventType::ASYNC, kind == DESTROY ? GEventAsyncStrategy::PIPELINE_DESTROY : GEventAsyncStrategy::NO_WAIT); } };
MC_SCENARIO(not_awaited, 1, 1, 2, 2) {
    VT_WORLD static const int kinds[] = { DESTROY, NOWAIT, AFUT_DESTROY }; int k = mc_choose(3, "kind"), sh = mc_choose(2, "shared"), runs = 1 + mc_choose(2, "runs"); Pipe q(0, mc_choose(3, "engine"), 3, false, sh); q.p->addGEvent<Held>("h"); go.v = 0; GElementPtr e = nullptr; ok(q.p->registerGElement<HN>(&e, {}, "n"), "register"); static_cast<HN *>(e)->kind = kinds[k]; ok(q.p->init(), "init");
    mc_explore(1); for (int r = 0; r < runs; r++) ok(runOnce(q.p), "run"); MC_ASSERT(done[0].get() == 0, "event"); go.set(1); q.destroy(); if (kinds[k] != NOWAIT) MC_ASSERT(done[0].get() == runs, "%ld events were executed before destroy() returned, %d were to be", done[0].peek(), runs); mc_explore(0); q.end();
}
// elements in nested groups
MC_SCENARIO(nested, 0, 0, 1, 1) {
    VT_WORLD int depth = 1 + mc_choose(3, "depth"), kind = mc_choose(2, "group"); Pipe q(0, mc_choose(3, "engine"), 2, false); auto *m = q.p->createGNode<N>(GNodeInfo("m")); Count c; for (int k = 0; k < 2; k++) { Op o{ mc_choose(NKIND, "kind"), k }; m->ops.push_back(o); } GElementPtr g = m; for (int i = 0; i < depth; i++) g = (i + kind) % 2 ? (GElementPtr)q.p->createGGroup<GCluster>({ g }) : (GElementPtr)q.p->createGGroup<GRegion>({ g }); ok(q.p->registerGGroup(&g, {}, "g"), "register");
    ok(q.p->init(), "init"); for (int r = 0; r < 2; r++) { for (auto &o : m->ops) c.add(o); mc_explore(1); CStatus s = runOnce(q.p); mc_explore(0); ok(s, "run"); for (int k = 0; k < 2; k++) MC_ASSERT(done[k].get() >= c.finish[k] && started[k].get() <= c.all[k], "event %d: %ld executions", k, done[k].peek()); } for (int k = 0; k < 2; k++) need[k] = c.dest[k]; q.destroy(); for (int k = 0; k < 2; k++) MC_ASSERT(done[k].get() >= c.dest[k] && started[k].peek() <= c.all[k], "event %d: %ld executions after destroy()", k, done[k].peek()); q.end();
}
// an event that throws: what the caller of a synchronous trigger, and who asks an asynchronous one for its result, sees
MC_SCENARIO(throws, 1, 1, 2, 2) {
    VT_WORLD Pipe q(1, mc_choose(3, "engine"), 2, false); int k = mc_choose(NKIND, "kind"); q.at(0)->ops = { { k, 0 } }; ok(q.p->init(), "init"); throwing = 1; mc_explore(1); CStatus s = runOnce(q.p); mc_explore(0);
    if (k == SYNC) MC_ASSERT(s.isErr() && s.getInfo().find("evthr") != std::string::npos, "run() returned %d %s although an event threw in the element", s.getCode(), s.getInfo().c_str()); else ok(s, "run");
    for (auto &f : q.at(0)->fut) { bool t = false; try { f.get(); } catch (const CException &) { t = true; } MC_ASSERT(t, "the exception of an asynchronous event is not in its future"); } throwing = 0;
    mc_explore(1); s = runOnce(q.p); mc_explore(0); ok(s, "next run"); q.destroy(); if (k != NOWAIT) MC_ASSERT(done[0].peek() == 2, "executed %ld times", done[0].peek()); q.end();
}
MC_SCENARIO(init_fails, 0, 0, 0, 0) {
    VT_WORLD Pipe q(1, 0, 1, false); failInit = 1; q.at(0)->ops = { { SYNC, 0 } }; CStatus s = q.p->init(); MC_ASSERT(s.getCode() == -41, "init returned %d", s.getCode()); MC_ASSERT(q.p->run().isErr() && done[0].peek() == 0, "ran"); q.end();
}
// an element that exceeded its limit triggers events while run() or destroy() already waits for others
class Late : public GNode { public: int kind = 0; CStatus run() override { for (int i = 0; i < 2; i++) { asked[0].add(1); ok(notify("e0", GEventType::ASYNC, kind ? GEventAsyncStrategy::PIPELINE_DESTROY : GEventAsyncStrategy::PIPELINE_RUN_FINISH), "notify"); if (!i) std::this_thread::sleep_for(std::chrono::milliseconds(300)); } return CStatus(); } };
MC_SCENARIO(late_element, 1, 1, 2, 2) {
    VT_WORLD int th = mc_choose(2, "threads"), eng = mc_choose(3, "engine"); if (!th && eng != 2) return; Pipe q(0, eng, 1 + th, false, mc_choose(2, "shared")); GElementPtr l = nullptr; ok(q.p->registerGElement<Late>(&l, {}, "late"), "register"); static_cast<Late *>(l)->kind = mc_choose(2, "kind"); bool hold = mc_choose(2, "hold"), fin = !static_cast<Late *>(l)->kind; l->setTimeout(100, hold ? GElementTimeoutStrategy::HOLD_BY_PIPELINE : GElementTimeoutStrategy::NO_HOLD); 
    ok(q.p->init(), "init"); mc_explore(1); CStatus s = runOnce(q.p); ok(s, "run"); if (hold && fin) MC_ASSERT(done[0].get() == 2, "run() held for the late element, but not for the events it triggered: %ld of 2 were executed", done[0].peek()); need[0] = 2; q.destroy(); mc_explore(0); MC_ASSERT(done[0].peek() == 2, "event executed %ld times, triggered twice", done[0].peek()); q.end();
}
