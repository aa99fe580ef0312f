// C15: suspend() and resume() of a running pipeline.
#include "pause.h"
using std::chrono::milliseconds;
static void nap() { std::this_thread::sleep_for(milliseconds(50)); }
static void pause(Shape &q, const std::atomic<bool> &) { ok(q.p->suspend(), "suspend"); markStop(); MC_ASSERT(q.p->getCurState() == GPipelineState::SUSPEND, "state"); }
// the run is suspended once its k-th execution has started (or ended), and resumed: nothing new starts in between, nothing is lost
static void cycle(int shape, int eng, int threads, int cycles, int runs) {
    Shape q(shape, eng, threads); int k = 1 + mc_choose((int)q.total - (cycles > 1), "when"); bool atEnd = mc_choose(2, "ended"); std::atomic<bool> done(false);
    ok(q.p->init(), "init");
    for (int r = 0; r < runs; r++) {
        begun = ended = 0; done = false; CStatus s; mc_explore(r == 0); std::thread t([&] { s = runOnce(q.p); done = true; }); bool late = false;
        for (int c = 0; c < cycles && !late; c++) {
            waitFor(atEnd ? ended : begun, k + c); late = done; ok(q.p->suspend(), "suspend"); markStop();
            nap(); long b = 0, f = 0; for (int i = 0; i < q.n; i++) { b += W->beg[i].peek(); f += W->fin[i].peek(); } MC_ASSERT(b == f, "an execution is stuck"); nap(); long b2 = 0; for (int i = 0; i < q.n; i++) b2 += W->beg[i].peek(); MC_ASSERT(b == b2, "executions went on while suspended");
            if (!late && !done) mc_outcome("suspended after %ld of %ld", f, q.total); if (f < q.total * (r + 1)) MC_ASSERT(!done, "run() returned while suspended, with %ld of %ld executions done", f - q.total * r, q.total);
            stopped.set(0); ok(q.p->resume(), "resume");
        }
        t.join(); mc_explore(0); ok(s, "run"); allRan();
    }
    q.end();
}
MC_SCENARIO(shapes, 1, 1, 2, 2) { VT_WORLD int s = mc_choose(SHAPES, "shape"), e = mc_choose(2, "engine"); cycle(s, e, 2, 1, 1); }
MC_SCENARIO(threads, 0, 0, 1, 1) { VT_WORLD int s = mc_choose(SHAPES, "shape"), e = mc_choose(3, "engine"); cycle(s, e, (s == 5) + 1 + mc_choose(3, "threads"), 1, 2); }
MC_SCENARIO(deep, 2, 2, 3, 3) { VT_WORLD cycle(mc_choose(2, "shape") ? 2 : 4, 0, 1, 1, 1); }
MC_SCENARIO(twice, 1, 1, 2, 2) { VT_WORLD int s = mc_choose(SHAPES, "shape"); cycle(s, 0, 2, 2, 1); }
// resumed only to be suspended again at once: what was held stays held, and nothing is lost
MC_SCENARIO(resumed_briefly, 2, 2, 3, 3) {
    VT_WORLD static const int K[] = { 2, 4, 3 }; int s = K[mc_choose(3, "shape")]; Shape q(s, 0, 1); int k = 1 + mc_choose((int)q.total - 1, "when"); std::atomic<bool> done(false); ok(q.p->init(), "init"); CStatus st; mc_explore(1); std::thread t([&] { st = runOnce(q.p); done = true; });
    waitFor(begun, k); ok(q.p->suspend(), "suspend"); ok(q.p->resume(), "resume"); ok(q.p->suspend(), "suspend"); markStop(); MC_ASSERT(q.p->getCurState() == GPipelineState::SUSPEND, "state"); nap(); long b = 0, f = 0; for (int i = 0; i < q.n; i++) { b += W->beg[i].peek(); f += W->fin[i].peek(); } MC_ASSERT(b == f, "an execution is stuck");
    nap(); stopped.set(0); ok(q.p->resume(), "resume"); if (mc_choose(2, "again")) ok(q.p->suspend(), "suspend"); else { t.join(); mc_explore(0); ok(st, "run"); allRan(); q.end(); return; }
    markStop(); nap(); b = f = 0; for (int i = 0; i < q.n; i++) { b += W->beg[i].peek(); f += W->fin[i].peek(); } MC_ASSERT(b == f, "an execution is stuck"); nap(); stopped.set(0); ok(q.p->resume(), "resume"); t.join(); mc_explore(0); ok(st, "run"); allRan(); q.end();
}
