// C12: elements with a time limit, their strategies, and fences.
#include "common.h"
#include <mutex>
#include <condition_variable>
#include <thread>
#include <chrono>
VT_MAIN
using namespace vt;

enum { T = 100 };
static std::mutex mx; static std::condition_variable cv; static bool released; static int slow; static mc::Var timeouts[MAXN], sawTimeout; static int fences[MAXN];
// element 0 has the limit; slow: 0 quick, 1 until released by its successor, 2 sleeps past the limit, 3 sleeps less, 4 polls isTimeout()
class ANode : public GNode { public: int vid = -1;
    CStatus run() override {
        enter(vid);
        for (int d = 0; d < W->n; d++) if (fences[vid] >> d & 1) MC_ASSERT(W->fin[d].get() - W->base[d] == W->loops[d], "element %d started before element %d, fenced before it, had finished", vid, d);
        if (vid == 1) MC_ASSERT(W->fin[0].get() - W->base[0] == 1 || timeouts[0].get() > 0, "the successor started before the element had finished or its time limit had expired");
        if (vid == 0) { if (slow == 1) { std::unique_lock<std::mutex> lk(mx); cv.wait(lk, [] { return released; }); } else if (slow == 2) std::this_thread::sleep_for(std::chrono::milliseconds(3 * T)); else if (slow == 3) std::this_thread::sleep_for(std::chrono::milliseconds(T / 2)); else if (slow == 4) { while (!isTimeout()) std::this_thread::sleep_for(std::chrono::milliseconds(T / 2)); sawTimeout.add(1); } else mc_point(); }
        else mc_point();
        if (vid == 1) { { std::unique_lock<std::mutex> lk(mx); released = true; } cv.notify_all(); }
        int a = W->act[vid]; leave(vid);
        if (a == THROW) CGRAPH_THROW_EXCEPTION("thr" + std::to_string(vid))
        return a == ERR ? CStatus(-100 - vid, "err" + std::to_string(vid)) : CStatus(); } };
class TAspect : public GAspect { public: int id() { return std::stoi(getName().substr(1)); } CVoid enterTimeout() override { timeouts[id()].add(1); } };
struct Pipe { GPipelinePtr p; GElementPtr e[6] = {};
    UThreadPool *shared = nullptr;
    Pipe(int eng, int threads, bool sh = false) { released = false; slow = 0; for (auto &t : timeouts) t.v = 0; sawTimeout.v = 0; for (auto &f : fences) f = 0; p = GPipelineFactory::create(); if (sh) { shared = new UThreadPool(true, cfg(threads)); p->setSharedThreadPool(shared); } else p->setUniqueThreadPoolConfig(cfg(threads)); p->setGEngineType(engine(eng)); W->n = 0; W->checkDeps = false; }
    GElementPtr add(const GElementPtrSet &d) { int i = W->n++; ok(p->registerGElement<ANode>(&e[i], d, "n" + std::to_string(i)), "register"); static_cast<ANode *>(e[i])->vid = i; e[i]->addGAspect<TAspect>(); return e[i]; }
    CStatus run() { released = false; for (auto &t : timeouts) t.v = 0; return runOnce(p); }
    void end() { ok(p->destroy(), "destroy"); for (int i = 0; i < W->n; i++) MC_ASSERT(W->beg[i].get() == W->fin[i].get(), "element %d executes after destroy()", i); GPipelineFactory::remove(p); if (shared) { ok(shared->destroy(), "pool"); delete shared; shared = nullptr; } MC_ASSERT(mc_live_threads() == 0, "threads left"); } };
static GElementTimeoutStrategy strat(int k) { return k == 0 ? GElementTimeoutStrategy::AS_ERROR : k == 1 ? GElementTimeoutStrategy::HOLD_BY_PIPELINE : GElementTimeoutStrategy::NO_HOLD; }
// a -> b, c: whatever the element does in its time
static void limits(bool early) {
    VT_WORLD int k = mc_choose(3, "strategy"); Pipe q(mc_choose(3, "engine"), 3); auto *a = q.add({}); q.add({ a }); q.add({}); a->setTimeout(T, strat(k)); int sl = mc_choose(5, "behaviour"); int runs = 2;
    if (k == 0 && sl == 1) sl = 2; if (k != 1 && sl == 4) sl = 0; if (sl == 0 && early) mc_timers(1);
    ok(q.p->init(), "init"); if (k != 1) W->checkActive = false;
    for (int r = 0; r < runs; r++) {
        slow = r == 0 ? sl : 0; if (r) mc_timers(0); mc_explore(1); auto s = q.run(); mc_explore(0); long t = timeouts[0].get(); MC_ASSERT(timeouts[1].peek() + timeouts[2].peek() == 0 && t <= 1, "enterTimeout called %ld times", t);
        if (!(early && slow == 0)) MC_ASSERT(t == (slow == 1 || slow == 2 || slow == 4), "enterTimeout of an element that %s its limit was called %ld times", slow == 0 || slow == 3 ? "kept" : "exceeded", t);
        if (k == 0 && t) { MC_ASSERT(s.isErr() && s.getInfo().find("n0") != std::string::npos, "run() returned [%d] %s although element n0 exceeded its time limit", s.getCode(), s.getInfo().c_str()); MC_ASSERT(W->beg[1].peek() == W->base[1], "the successor of an element that exceeded its limit executed"); }
        else { ok(s, "run"); if (k == 2 && t) { while (W->fin[0].get() == W->base[0]) std::this_thread::sleep_for(std::chrono::milliseconds(T)); } allRan(); }
        if (k == 0) while (W->fin[0].get() == W->base[0]) std::this_thread::sleep_for(std::chrono::milliseconds(T));
        mc_outcome("strategy %d behaviour %d: timed out %ld, %s", k, slow, t, s.isErr() ? "error" : "ok");
    }
    q.end();
}
MC_SCENARIO(limits_exact, 1, 1, 2, 2) { limits(false); }
MC_SCENARIO(limits_any_moment, 1, 1, 2, 2) { limits(true); }
// a late group: none of its elements, at whatever depth, begins after its limit has expired; the next run is complete
MC_SCENARIO(late_group, 1, 1, 2, 1) {
    VT_WORLD int depth = mc_choose(4, "depth"), kind = mc_choose(2, "kind"), at = mc_choose(3, "which is slow"); Pipe q(mc_choose(3, "engine"), 4); W->checkActive = false; GElementPtr m[3];
    for (int i = 0; i < 3; i++) { auto *n = q.p->createGNode<ANode>(GNodeInfo("n" + std::to_string(i + 2))); n->vid = i == at ? 0 : i + 2; m[i] = n; } W->n = 5;
    auto group = [&](const std::vector<GElementPtr> &es) -> GElementPtr { if (!kind) return q.p->createGGroup<GCluster>(es); GRegion *r = static_cast<GRegion *>((GElementPtr)q.p->createGGroup<GRegion>(es)); for (size_t i = 1; i < es.size(); i++) es[i]->addDependGElements({ es[i - 1] }); return r; };
    GElementPtr g = group({ m[0], m[1], m[2] }); for (int i = 0; i < depth; i++) g = group({ g }); ok(q.p->registerGGroup(&g, {}, "g"), "register"); g->setTimeout(T, GElementTimeoutStrategy::HOLD_BY_PIPELINE); ok(q.p->init(), "init");
    for (int r = 0; r < 3; r++) { slow = r == 1 ? 2 : 0; mc_explore(1); auto s = q.run(); mc_explore(0); ok(s, "run"); for (int i = 0; i < 3; i++) { int v = i == at ? 0 : i + 2; long b = W->beg[v].peek() - W->base[v], f = W->fin[v].peek() - W->base[v]; MC_ASSERT(b == f, "an element of the group still executes"); MC_ASSERT(b == (r != 1 || i <= at), "depth %d: element %d of the group executed %ld times in run %d, element %d is %s", depth, i, b, r, at, r == 1 ? "late" : "not late"); } }
    q.end();
}
// a member of a some-group has the limit it was given
struct One : public GSome { static CSize num; CSize getWaitNum() override { return num; } }; CSize One::num;
MC_SCENARIO(some_member, 1, 1, 2, 2) {
    VT_WORLD int k = mc_choose(3, "strategy"), others = mc_choose(2, "others"); One::num = 1 + others; Pipe q(mc_choose(2, "engine"), 4); W->checkActive = false; std::vector<GElementPtr> m; for (int i = 0; i <= others; i++) { auto *n = q.p->createGNode<ANode>(GNodeInfo("n" + std::to_string(2 * i))); n->vid = 2 * i; m.push_back(n); n->addGAspect<TAspect>(); } W->n = 3; m[0]->setTimeout(T, strat(k));
    GElementPtr g = q.p->createGGroup<One>(m); ok(q.p->registerGGroup(&g, {}, "g"), "register"); ok(q.p->init(), "init");
    for (int r = 0; r < 2; r++) { slow = r == 0 ? 2 + mc_choose(2, "behaviour") : 0; mc_explore(1); auto s = q.run(); mc_explore(0); bool late = slow == 2; MC_ASSERT(timeouts[0].get() == late, "enterTimeout was called %ld times", timeouts[0].peek()); if (late && k == 0) MC_ASSERT(s.isErr(), "run() says nothing of a member that exceeded its limit"); else ok(s, "run"); while (W->fin[0].get() == W->base[0]) std::this_thread::sleep_for(std::chrono::milliseconds(T)); }
    q.end();
}
// what a late element returns is what run() returns when the pipeline holds for it
MC_SCENARIO(late_result, 1, 1, 2, 2) {
    VT_WORLD Pipe q(mc_choose(3, "engine"), 3); auto *a = q.add({}); q.add({ a }); q.add({}); a->setTimeout(T, GElementTimeoutStrategy::HOLD_BY_PIPELINE); slow = 1 + mc_choose(2, "behaviour"); W->act[0] = mc_choose(2, "throw") ? THROW : ERR;
    ok(q.p->init(), "init"); mc_explore(1); auto s = q.run(); mc_explore(0); MC_ASSERT(W->fin[0].peek() == 1 && W->fin[2].peek() == 1 && W->fin[1].peek() == 1, "executed %ld %ld %ld times", W->fin[0].peek(), W->fin[1].peek(), W->fin[2].peek());
    MC_ASSERT(s.getCode() == (W->act[0] == ERR ? -100 : internal::STATUS_CRASH), "run() returned %d although the late element failed", s.getCode()); MC_ASSERT(s.getInfo().find(W->act[0] == ERR ? "err0" : "thr0") != std::string::npos, "info %s", s.getInfo().c_str());
    W->act[0] = OK; slow = 0; mc_explore(1); s = q.run(); mc_explore(0); ok(s, "next run"); allRan(); q.end();
}
// destroy() while an element that exceeded its limit still executes
MC_SCENARIO(destroy_waits, 1, 1, 2, 2) {
    VT_WORLD int sh = mc_choose(2, "shared"); Pipe q(mc_choose(3, "engine"), 3, sh); auto *a = q.add({}); q.add({}); a->setTimeout(T, mc_choose(2, "strategy") ? GElementTimeoutStrategy::NO_HOLD : GElementTimeoutStrategy::AS_ERROR); slow = 2; W->checkActive = false; fences[1] = 0; W->act[1] = OK; static_cast<ANode *>(q.e[1])->vid = 2; W->n = 3;
    ok(q.p->init(), "init"); mc_explore(1); auto s = q.run(); MC_ASSERT(timeouts[0].peek() == 1, "no timeout"); q.end(); mc_explore(0);
}
// late in every run: destroy() waits for whichever execution is in progress
MC_SCENARIO(late_again, 1, 1, 2, 2) {
    VT_WORLD int runs = 2 + mc_choose(2, "runs"); bool other = mc_choose(2, "other"); Pipe q(mc_choose(3, "engine"), 4); auto *a = q.add({}); q.add({}); static_cast<ANode *>(q.e[1])->vid = 2; W->n = 3; a->setTimeout(T, mc_choose(2, "strategy") ? GElementTimeoutStrategy::NO_HOLD : GElementTimeoutStrategy::AS_ERROR); slow = 2; W->checkActive = false; long want = 0;
    ok(q.p->init(), "init"); mc_explore(1); for (int r = 0; r < runs; r++) { slow = other && r != runs - 1 ? 0 : 2; want++; q.run(); MC_ASSERT(timeouts[0].peek() == (slow == 2), "enterTimeout was called %ld times", timeouts[0].peek()); if (slow == 2 && r < runs - 1) while (W->fin[0].get() < want) std::this_thread::sleep_for(std::chrono::milliseconds(T)); } q.end(); mc_explore(0);
    MC_ASSERT(W->beg[0].peek() == want && W->fin[0].peek() == want, "executed %ld times", W->beg[0].peek());
}
// late in one run and still executing during the next: destroy() waits for every execution
class LNode : public GNode { public: CStatus run() override { W->beg[0].add(1); if (slow) std::this_thread::sleep_for(std::chrono::milliseconds(slow == 2 ? 3 * T : 7 * T)); W->fin[0].add(1); return CStatus(); } };
MC_SCENARIO(late_overlapping, 1, 1, 2, 2) {
    VT_WORLD Pipe q(mc_choose(3, "engine"), 4, mc_choose(2, "shared")); GElementPtr a = nullptr; ok(q.p->registerGElement<LNode>(&a, {}, "n0"), "register"); a->addGAspect<TAspect>(); a->setTimeout(T, mc_choose(2, "strategy") ? GElementTimeoutStrategy::NO_HOLD : GElementTimeoutStrategy::AS_ERROR); q.add({}); static_cast<ANode *>(q.e[0])->vid = 2; W->n = 3; W->checkActive = false;
    ok(q.p->init(), "init"); mc_explore(1); long n = 2 + mc_choose(2, "runs"); for (long r = 0; r < n; r++) { slow = 2 + mc_choose(2, "how late"); q.run(); MC_ASSERT(W->beg[0].get() == r + 1, "%ld executions began in %ld runs", W->beg[0].peek(), r + 1); } q.end(); mc_explore(0); MC_ASSERT(W->fin[0].get() == n, "%ld of %ld executions have finished after destroy()", W->fin[0].peek(), n);
}
// a fence holds its successors until the elements it waits for have finished
MC_SCENARIO(fence, 1, 1, 2, 2) {
    VT_WORLD Pipe q(mc_choose(3, "engine"), 4); auto *a = q.add({}), *b = q.add({ a }), *c = q.add({}); (void)c; GFencePtr f = nullptr; a->setTimeout(T, strat(1 + mc_choose(2, "strategy"))); W->checkActive = false;
    ok(q.p->registerGElement<GFence>(&f, { b }, "f"), "fence"); f->waitGElement(a); q.add({ f }); fences[3] = 1; int sl = mc_choose(4, "behaviour"), bad = mc_choose(2, "bad"); if (bad) W->act[0] = ERR;
    ok(q.p->init(), "init"); slow = sl; mc_explore(1); auto s = q.run(); mc_explore(0);
    if (bad) { MC_ASSERT(s.getCode() == -100, "run() returned %d although a fenced element failed", s.getCode()); MC_ASSERT(W->beg[3].peek() == 0, "the successor of a fence whose element failed executed"); } else { ok(s, "run"); allRan(); }
    W->act[0] = OK; slow = 0; mc_explore(1); s = q.run(); mc_explore(0); ok(s, "next run"); allRan(); q.end();
}
// two fences for the same element
MC_SCENARIO(two_fences, 1, 1, 2, 2) {
    VT_WORLD Pipe q(mc_choose(3, "engine"), 4); auto *a = q.add({}), *b = q.add({ a }); GFencePtr f = nullptr, g = nullptr; a->setTimeout(T, GElementTimeoutStrategy::HOLD_BY_PIPELINE);
    ok(q.p->registerGElement<GFence>(&f, { b }, "f"), "fence"); f->waitGElement(a); ok(q.p->registerGElement<GFence>(&g, { b }, "g"), "fence"); g->waitGElements({ a }); q.add({ f }); q.add({ g }); fences[2] = fences[3] = 1;
    ok(q.p->init(), "init"); slow = mc_choose(4, "behaviour"); mc_explore(1); auto s = q.run(); mc_explore(0); ok(s, "run"); allRan(); q.end();
}
// what cannot be combined is refused
MC_SCENARIO(refused, 0, 0, 0, 0) {
    VT_WORLD Pipe q(0, 2); auto *a = q.add({}); auto thrown = [](std::function<void()> f) { try { f(); return false; } catch (const CException &) { return true; } }; GFencePtr f = nullptr; ok(q.p->registerGElement<GFence>(&f, {}, "f"), "fence");
    int c = mc_choose(6, "case");
    if (c == 0) { MC_ASSERT(thrown([&] { f->waitGElement(a); }), "a fence accepted an element without time limit"); }
    if (c == 1) { a->setLoop(2); W->loops[0] = 2; MC_ASSERT(thrown([&] { a->setTimeout(T); }), "time limit accepted for a looping element"); MC_ASSERT(!thrown([&] { a->setTimeout(0); }), "removing the limit refused"); }
    if (c == 2) { a->setTimeout(T); MC_ASSERT(thrown([&] { a->setLoop(2); }), "loop accepted for an element with time limit"); a->setTimeout(0); a->setLoop(2); W->loops[0] = 2; }
    if (c == 3) { a->setTimeout(T); f->waitGElement(a); a->setTimeout(0); auto s = q.p->init(); MC_ASSERT(s.isErr(), "init accepted a fence for an element without time limit"); GPipelineFactory::remove(q.p); return; }
    if (c == 4) { MC_ASSERT(thrown([&] { a->setTimeout(-1); }), "negative limit accepted"); }
    if (c == 5) { a->setTimeout(T); f->waitGElement(a); f->clear(); a->setTimeout(0); }
    ok(q.p->init(), "init"); ok(q.run(), "run"); allRan(); q.end();
}
// an element that was late in one run and is not chosen in the next: a fence there has nothing to wait for
struct Either : public GCondition { static int index; CIndex choose() override { return index; } }; int Either::index;
MC_SCENARIO(fence_stale, 1, 1, 2, 2) {
    VT_WORLD Pipe q(mc_choose(3, "engine"), 4); W->checkActive = false; GElementPtr m[2]; for (int i = 0; i < 2; i++) { auto *n = q.p->createGNode<ANode>(GNodeInfo("n" + std::to_string(i * 2))); n->vid = i * 2; n->addGAspect<TAspect>(); m[i] = n; } W->n = 4; m[0]->setTimeout(T, GElementTimeoutStrategy::HOLD_BY_PIPELINE); GElementPtr g = q.p->createGGroup<Either>({ m[0], m[1] }), x = nullptr; ok(q.p->registerGElement<Either>(&g, {}, "g"), "register"); GFencePtr f = nullptr; ok(q.p->registerGElement<GFence>(&f, { g }, "f"), "fence"); f->waitGElement(m[0]); ok(q.p->registerGElement<ANode>(&x, { f }, "n3"), "register"); static_cast<ANode *>(x)->vid = 3;
    ok(q.p->init(), "init"); int bad = mc_choose(2, "bad"); W->act[0] = bad ? ERR : OK; slow = 2 + mc_choose(2, "behaviour"); Either::index = 0; mc_explore(1); auto s = q.run(); mc_explore(0); if (bad) { MC_ASSERT(s.getCode() == -100 && W->beg[3].peek() == 0, "run() returned %d although the fenced element failed", s.getCode()); } else { ok(s, "run"); MC_ASSERT(W->fin[0].peek() == 1 && W->fin[3].peek() == 1, "executed"); }
    Either::index = 1; mc_explore(1); s = q.run(); mc_explore(0); ok(s, "a run in which the fenced element is not chosen"); MC_ASSERT(W->fin[0].peek() == 1 && W->fin[2].peek() == 1 && W->fin[3].peek() == 2 - bad, "executed %ld %ld %ld times", W->fin[0].peek(), W->fin[2].peek(), W->fin[3].peek()); q.end();
}
