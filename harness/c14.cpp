// C14: cancel() of a running pipeline.
#include "pause.h"
// the run is cancelled once its k-th execution has started (or ended): nothing that comes later starts, run() returns, the next run is whole
static void once(int shape, int eng, int threads, bool hold) {
    Shape q(shape, eng, threads); int k = 1 + mc_choose((int)q.total, "when"); bool atEnd = mc_choose(2, "ended"); if (hold) { holds[1] = 20; W->loops[1] = -1; if (k > 2) k = 2; } W->checkDeps = !hold;
    ok(q.p->init(), "init"); CStatus s; mc_explore(1); std::thread t([&] { s = runOnce(q.p); }); waitFor(atEnd ? ended : begun, k); ok(q.p->cancel(), "cancel"); markStop(); t.join(); mc_explore(0);
    ok(s, "run"); long f = 0; for (int i = 0; i < q.n; i++) { MC_ASSERT(W->beg[i].peek() == W->fin[i].peek(), "element %d executes after run()", i); f += W->fin[i].peek(); } mc_outcome("%ld executions of %ld, cancelled at %s %d", f, q.total, atEnd ? "end" : "start", k);
    stopped.set(0); holds[1] = 0; if (hold) W->loops[1] = 1; W->checkDeps = true; ok(runOnce(q.p), "next run"); allRan(); q.end();
}
MC_SCENARIO(shapes, 1, 1, 2, 2) { VT_WORLD int s = mc_choose(SHAPES, "shape"), e = mc_choose(2, "engine"); once(s, e, 2, false); }
MC_SCENARIO(threads, 0, 0, 1, 1) { VT_WORLD int s = mc_choose(SHAPES, "shape"), e = mc_choose(3, "engine"); once(s, e, (s == 5) + 1 + mc_choose(3, "threads"), false); }
MC_SCENARIO(deep, 2, 2, 3, 3) { VT_WORLD once(mc_choose(2, "shape") ? 2 : 4, 0, 1, false); }
// an element that holds on is not executed again
MC_SCENARIO(holding, 1, 1, 2, 2) { VT_WORLD int s = mc_choose(3, "shape"), e = mc_choose(2, "engine"); once(s == 0 ? 0 : s == 1 ? 2 : 4, e, 2, true); }
// process(n), cancelled at any execution of any of its runs: nothing of a later run starts, process() returns and destroys
struct Setups : GParam { static mc::Var n; CStatus setup() override { n.add(1); return CStatus(); } }; mc::Var Setups::n;
static void process(int s, int e, int whole) {
    VT_WORLD int n = 3; Shape q(s, e, 2); Setups::n.v = 0; ok(q.p->createGParam<Setups>("p"), "param"); long su = 0; int k = whole ? (int)q.total * whole : 1 + mc_choose((int)q.total * 2, "when"); bool atEnd = mc_choose(2, "ended"); for (int i = 0; i < 4; i++) W->loops[i] *= n; W->checkActive = false; W->checkDeps = false;
    CStatus st; mc_explore(1); std::thread t([&] { try { st += q.p->process(n); } catch (const CException &) { st += CStatus("thrown"); } }); waitFor(atEnd ? ended : begun, k); ok(q.p->cancel(), "cancel"); su = Setups::n.get(); markStop(); t.join(); mc_explore(0);
    ok(st, "process"); MC_ASSERT(Setups::n.get() <= su + 1, "the parameters were set up for %ld more runs after cancel()", Setups::n.get() - su); long f = 0; for (int i = 0; i < q.n; i++) f += W->fin[i].peek(); mc_outcome("%ld executions of %ld", f, q.total * n); stopped.set(0);
    for (int i = 0; i < 4; i++) { W->loops[i] /= n; W->newRun(); } W->checkActive = false; ok(q.p->process(1), "next process"); allRan(); GPipelineFactory::remove(q.p);
}
MC_SCENARIO(process_any, 0, 0, 1, 1) { int s = mc_choose(SHAPES, "shape"); process(s, mc_choose(3, "engine"), 0); }
MC_SCENARIO(process_between_runs, 1, 1, 2, 2) { int s = mc_choose(SHAPES, "shape"); process(s, 0, 1 + mc_choose(2, "runs")); }
// a suspended run that is cancelled returns; cancel, suspend and resume by several threads at once leave nothing stuck
MC_SCENARIO(while_suspended, 1, 1, 2, 2) {
    VT_WORLD int s = mc_choose(SHAPES, "shape"), e = mc_choose(2, "engine"); Shape q(s, e, 2); int k = 1 + mc_choose((int)q.total - 1, "when"); bool resumeToo = mc_choose(2, "resume");
    ok(q.p->init(), "init"); CStatus st; mc_explore(1); std::thread t([&] { st = runOnce(q.p); }); waitFor(begun, k); ok(q.p->suspend(), "suspend"); if (resumeToo) ok(q.p->resume(), "resume"); ok(q.p->cancel(), "cancel"); markStop(); t.join(); mc_explore(0); ok(st, "run");
    stopped.set(0); ok(runOnce(q.p), "next run"); allRan(); q.end();
}
MC_SCENARIO(concurrent_calls, 1, 1, 2, 2) {
    VT_WORLD int s = mc_choose(3, "shape") * 2, c = mc_choose(3, "calls"); Shape q(s, 0, 2); int k = 1 + mc_choose(3, "when"); auto call = [&](int x) { ok(x == 0 ? q.p->suspend() : x == 1 ? q.p->resume() : q.p->cancel(), "call"); };
    ok(q.p->init(), "init"); CStatus st; mc_explore(1); std::thread t([&] { st = runOnce(q.p); }); waitFor(begun, k); std::thread u([&] { call(c == 0 ? 0 : c == 1 ? 1 : 0); if (c == 2) call(1); }); call(c == 1 ? 0 : 2); u.join(); if (c == 1) { call(0); call(1); } else if (c == 0) { call(2); } t.join(); mc_explore(0); ok(st, "run");
    if (c == 1) allRan(); ok(runOnce(q.p), "next run"); allRan(); q.end();
}
