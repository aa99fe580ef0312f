// C26: the queues of the thread pool, each by itself, used by several threads at once.
#include "common.h"
#include "lin.h"
#include <thread>
#include <deque>
#include <algorithm>
VT_MAIN
using namespace vt;
enum { PUSH, TRYPUSH, PUSH2, POP, POP2, STEAL, STEAL2, POPT, UPOP, EMPTY, WAITPOP, BATCH, CLEAR, RESET, SETUP };
static const char *NAME[] = { "push", "tryPush", "push2", "tryPop", "tryPop2", "trySteal", "trySteal2", "popWithTimeout", "pop", "empty", "waitPop", "batch", "clear", "reset", "setup" };
static long live;
struct V { long v, prio; VT_PLAIN V() : v(-7), prio(0) { live++; } VT_PLAIN V(long x) : v(x), prio(0) { live++; } VT_PLAIN V(V &&o) noexcept : v(o.v), prio(o.prio) { o.v = -8; live++; } V(V &&o, int p) : V(std::move(o)) { prio = p; } VT_PLAIN V &operator=(V &&o) noexcept { v = o.v; prio = o.prio; o.v = -8; return *this; } VT_PLAIN ~V() { live--; } bool operator<(const V &o) const { return prio < o.prio; } };
static int opBegin(int kind, long a, long b) { if (kind == PUSH || kind == TRYPUSH || kind == BATCH) { give(a); if (kind == BATCH) give(b); } return lin::begin(kind, a, b); }
static void opEnd(int i, long r, long r2) { int k = lin::H().op[i].kind; if (k == POP || k == STEAL || k == POP2 || k == STEAL2 || k == POPT || k == UPOP || k == WAITPOP) { if (r >= 0) taken(r); if (r2 >= 0) taken(r2); } lin::end(i, r, r2); }
static bool overlapped(const lin::Op &o) { auto &h = lin::H(); for (int i = 0; i < h.n.peek(); i++) { auto &x = h.op[i]; if (&x != &o && x.t0 < o.t1 && (x.t1 < 0 || x.t1 > o.t0)) return true; } return false; }
// the reference: a list; weak calls may fail while another call is in progress, and only then or if there is nothing
struct Ref { std::deque<long> q; bool prio = false, ready = true, weakEmpty = false;
    bool relevant(const lin::Op &) const { return true; }
    long take(bool back) { size_t k = 0; if (prio) { for (size_t i = 1; i < q.size(); i++) if (q[i] / 10 > q[k] / 10) k = i; } else if (back) k = q.size() - 1; long v = q[k]; q.erase(q.begin() + k); return v; }
    bool takeThis(long v, bool back) { if (q.empty()) return false; if (!prio) { return take(back) == v; } long best = -1; for (long x : q) best = std::max(best, x / 10); auto it = std::find(q.begin(), q.end(), v); if (it == q.end() || v / 10 != best) return false; q.erase(it); return true; }
    bool apply(const lin::Op &o) { switch (o.kind) {
        case PUSH: q.push_back(o.a); return true; case TRYPUSH: if (o.res < 0) return overlapped(o); q.push_back(o.a); return true; case PUSH2: case BATCH: q.push_back(o.a); q.push_back(o.b); return true;
        case POP: case STEAL: if (o.res < 0) return q.empty() || overlapped(o); return takeThis(o.res, o.kind == STEAL);
        case POP2: case STEAL2: { long n = (o.res >= 0) + (o.res2 >= 0); if (!n) return q.empty() || overlapped(o); if ((long)std::min<size_t>(2, q.size()) != n) return false; return takeThis(o.res, o.kind == STEAL2) && (n < 2 || takeThis(o.res2, o.kind == STEAL2)); }
        case POPT: if (o.res < 0) return q.empty() || !ready; if (!ready) return false; return takeThis(o.res, false); case UPOP: if (o.res < 0) return q.empty(); return takeThis(o.res, false); case WAITPOP: return takeThis(o.res, false);
        case EMPTY: return o.res == (long)q.empty() || (weakEmpty && overlapped(o)); case CLEAR: q.clear(); return true; case RESET: ready = false; return true; case SETUP: if (o.a) q.clear(); ready = true; return true; } return false; }
    std::string show(const lin::Op &o) const { return std::string(NAME[o.kind]) + "(" + std::to_string(o.a) + ") -> " + std::to_string(o.res) + "," + std::to_string(o.res2); } };
struct Atomic { UAtomicQueue<V> q; enum { N = 6 }; static constexpr int K[N] = { PUSH, POP, POP2, POPT, UPOP, EMPTY }; static constexpr bool prio = false, weak = false;
    void call(int kind, long v, long w = 0) { int i = opBegin(kind, v, w); long r = 0, r2 = -1; switch (kind) { case PUSH: q.push(V(v)); break; case POP: { V x; r = q.tryPop(x) ? x.v : -1; break; } case POP2: { std::vector<V> x; bool b = q.tryPop(x, 2); MC_ASSERT(b == !x.empty() && x.size() <= 2, "batch result"); r = x.size() > 0 ? x[0].v : -1; r2 = x.size() > 1 ? x[1].v : -1; break; } case POPT: { auto x = q.popWithTimeout(5); r = x ? x->v : -1; break; } case UPOP: { auto x = q.tryPop(); r = x ? x->v : -1; break; } case EMPTY: r = q.empty(); break; case WAITPOP: { V x; q.waitPop(x); r = x.v; break; } case RESET: q.reset(); break; case SETUP: q.setup(); break; } opEnd(i, r, r2); } };
constexpr int Atomic::K[];
struct Steal { UWorkStealingQueue<V> q; enum { N = 7 }; static constexpr int K[N] = { PUSH, POP, STEAL, POP2, STEAL2, TRYPUSH, EMPTY }; static constexpr bool prio = false, weak = true;
    void call(int kind, long v, long w = 0) { int i = opBegin(kind, v, w); long r = 0, r2 = -1; switch (kind) { case PUSH: q.push(V(v)); break; case TRYPUSH: r = q.tryPush(V(v)) ? 0 : -1; break; case BATCH: q.push(V(v), true, true); q.push(V(w), true, false); break; case POP: { V x; r = q.tryPop(x) ? x.v : -1; break; } case STEAL: { V x; r = q.trySteal(x) ? x.v : -1; break; } case POP2: case STEAL2: { std::vector<V> x; bool b = kind == POP2 ? q.tryPop(x, 2) : q.trySteal(x, 2); MC_ASSERT(b == !x.empty() && x.size() <= 2, "batch result"); r = x.size() > 0 ? x[0].v : -1; r2 = x.size() > 1 ? x[1].v : -1; break; } case EMPTY: r = q.isEmpty(); break; } opEnd(i, r, r2); } };
constexpr int Steal::K[];
struct Prio { UAtomicPriorityQueue<V> q; enum { N = 4 }; static constexpr int K[N] = { PUSH, POP, POP2, EMPTY }; static constexpr bool prio = true, weak = false;
    void call(int kind, long v, long w = 0) { int i = opBegin(kind, v, w); long r = 0, r2 = -1; switch (kind) { case PUSH: q.push(V(v), (int)(v / 10)); break; case POP: { V x; r = q.tryPop(x) ? x.v : -1; break; } case POP2: { std::vector<V> x; bool b = q.tryPop(x, 2); MC_ASSERT(b == !x.empty() && x.size() <= 2, "batch result"); r = x.size() > 0 ? x[0].v : -1; r2 = x.size() > 1 ? x[1].v : -1; break; } case EMPTY: r = q.empty(); break; } opEnd(i, r, r2); } };
constexpr int Prio::K[];
static void start() { handoverStart(); lin::reset(); live = 0; }
static long val(bool prio, long serial, int p) { return prio ? serial + 10 * p : serial; }
template <class T> static void drain(T &t) { for (int k = 0; k < 12; k++) { long n = lin::H().n.peek(); t.call(POP, 0); if (lin::H().op[n].res < 0) break; } Ref r; r.prio = T::prio; r.weakEmpty = T::weak; lin::check(r); }
// every program of THR threads with OPS calls each, on a queue holding 0..pre values
template <class T> static void programs(int THR, int OPS, int pre) {
    start(); { T t; int n = mc_choose(pre + 1, "filled"); long s = 1; for (int i = 0; i < n; i++) t.call(PUSH, val(T::prio, s++, i % 2)); int op[3][3]; long pv[3][3]; for (int a = 0; a < THR; a++) for (int b = 0; b < OPS; b++) { op[a][b] = mc_choose(T::N, "call"); pv[a][b] = val(T::prio, s++, T::prio ? (a + b) % 3 : 0); }
        mc_timers(1); mc_explore(1); std::vector<std::thread> th; for (int a = 1; a < THR; a++) th.emplace_back([&, a] { for (int b = 0; b < OPS; b++) t.call(T::K[op[a][b]], pv[a][b]); }); for (int b = 0; b < OPS; b++) t.call(T::K[op[0][b]], pv[0][b]); for (auto &x : th) x.join(); mc_explore(0); mc_timers(0); drain(t); } MC_ASSERT(live == 0, "%ld values are not freed", live);
}
template <class T> static void history(int len) { start(); { T t; for (int k = 0; k < len; k++) t.call(T::K[mc_choose(T::N, "call")], val(T::prio, k + 1, T::prio ? mc_choose(2, "priority") : 0)); drain(t); } MC_ASSERT(live == 0, "%ld values are not freed", live); }
MC_SCENARIO(shared_2x2, 2, 2, 3, 3) { programs<Atomic>(2, 2, 1); }
MC_SCENARIO(shared_3x1, 2, 2, 3, 3) { programs<Atomic>(3, 1, 2); }
MC_SCENARIO(stealing_2x2, 2, 2, 3, 3) { programs<Steal>(2, 2, 1); }
MC_SCENARIO(stealing_3x1, 2, 2, 3, 3) { programs<Steal>(3, 1, 2); }
MC_SCENARIO(priority_2x2, 2, 2, 3, 3) { programs<Prio>(2, 2, 2); }
MC_SCENARIO(priority_3x1, 2, 2, 4, 4) { programs<Prio>(3, 1, 2); }
MC_SCENARIO(shared_history, 0, 0, 0, 0) { history<Atomic>(5); }
MC_SCENARIO(stealing_history, 0, 0, 0, 0) { history<Steal>(5); }
MC_SCENARIO(priority_history, 0, 0, 0, 0) { history<Prio>(5); }
MC_SCENARIO(shared_history_6, -1, -1, 0, 0) { history<Atomic>(6); }
MC_SCENARIO(stealing_history_6, -1, -1, 0, 0) { history<Steal>(6); }
MC_SCENARIO(priority_history_6, -1, -1, 0, 0) { history<Prio>(6); }
// a batch that holds the queue from its first to its last value
MC_SCENARIO(stealing_batch, 3, 3, 5, 5) { start(); { Steal t; static const int o[] = { PUSH, POP, STEAL, POP2, STEAL2 }; int n = mc_choose(2, "filled"); if (n) t.call(PUSH, 9); int a = o[mc_choose(5, "call")], b = o[mc_choose(5, "call")]; mc_explore(1); std::thread x([&] { t.call(a, 5); t.call(b, 6); }); t.call(BATCH, 1, 2); x.join(); mc_explore(0); drain(t); } MC_ASSERT(live == 0, "values are not freed"); }
// waiting without limit, and the state the pool uses to end the wait
MC_SCENARIO(waiting, 3, 3, 4, 4) { start(); { Atomic t; int n = 1 + mc_choose(2, "per thread"), sp = mc_choose(2, "spurious"); if (sp) mc_spurious(1); mc_explore(1); std::thread a([&] { for (int k = 0; k < n; k++) t.call(WAITPOP, 0); }), b([&] { for (int k = 0; k < n; k++) t.call(WAITPOP, 0); }); for (int k = 0; k < 2 * n; k++) t.call(PUSH, k + 1); a.join(); b.join(); mc_explore(0); drain(t); } MC_ASSERT(live == 0, "values are not freed"); }
MC_SCENARIO(ending, 3, 3, 5, 5) { start(); { Atomic t; int n = mc_choose(2, "value"), again = mc_choose(2, "setup"); mc_explore(1); std::thread a([&] { auto t0 = mc_now_ms(); auto x = t.q.popWithTimeout(1000000); MC_ASSERT(mc_now_ms() - t0 < 1000000, "the wait was not ended"); if (x) MC_ASSERT(n && x->v == 1, "value"); }); if (n) t.call(PUSH, 1); t.q.reset(); a.join(); mc_explore(0); if (again) { t.q.setup(); auto y = t.q.popWithTimeout(10); MC_ASSERT(!y, "setup() leaves values"); t.q.push(V(3)); auto z = t.q.popWithTimeout(10); MC_ASSERT(z && z->v == 3, "no value after setup()"); } } MC_ASSERT(live == 0, "values are not freed"); }
MC_SCENARIO(timed, 3, 3, 5, 5) { start(); { Atomic t; int d = mc_choose(3, "delay"); mc_explore(1); std::thread a([&] { std::this_thread::sleep_for(std::chrono::milliseconds(d * 30)); t.q.push(V(1)); }); long t0 = mc_now_ms(); auto x = t.q.popWithTimeout(50); long e = mc_now_ms() - t0; MC_ASSERT(d < 2 ? x && x->v == 1 && e == d * 30 : !x && e == 50, "popWithTimeout() gave %s after %ld ms", x ? "a value" : "nothing", e); a.join(); mc_explore(0); } MC_ASSERT(live == 0, "values are not freed"); }
// one writer and one reader without a lock
template <int CAP> static void spsc(int n) { start(); { ULockFreeRingBufferQueue<V, CAP> q; int pre = mc_choose(CAP + 1, "filled"), next = 1, got = 0; for (int i = 0; i < pre; i++) q.push(V(next++)); int shift = mc_choose(2, "shifted"); if (shift && pre) { V x; MC_ASSERT(q.tryPop(x) && x.v == ++got, "order"); } mc_explore(1); std::thread w([&] { for (int i = 0; i < n; i++) { give(pre + 1 + i); q.push(V(pre + 1 + i)); } }); while (got < pre + n) { V x; if (q.tryPop(x)) { MC_ASSERT(x.v == ++got, "got %ld, expected %d", x.v, got); if (got > pre) taken(got); } else std::this_thread::yield(); } w.join(); mc_explore(0); V x; MC_ASSERT(!q.tryPop(x), "a value appeared twice"); } MC_ASSERT(live == 0, "%ld values are not freed", live); }
MC_SCENARIO(lock_free_1, 4, 4, 6, 6) { spsc<1>(3); }
MC_SCENARIO(lock_free_2, 4, 4, 6, 6) { spsc<2>(3); }
MC_SCENARIO(lock_free_left_over, 0, 0, 0, 0) { start(); { ULockFreeRingBufferQueue<V, 3> q; int n = mc_choose(4, "values"); for (int i = 0; i < n; i++) q.push(V(i + 1)); V x; MC_ASSERT(q.tryPop(x) == (n > 0) && (n == 0 || x.v == 1), "order"); } MC_ASSERT(live == 0, "%ld values are not freed", live); }
// the ring buffer by itself
MC_SCENARIO(ring_buffer, 0, 0, 0, 0) { start(); { UAtomicRingBufferQueue<V> q; int cap = mc_choose(4, "capacity"); q.setCapacity(cap); MC_ASSERT(q.getCapacity() == (CUInt)cap, "capacity"); std::deque<long> ref; for (int k = 0; k < 7; k++) { int c = mc_choose(4, "call"); if (c == 3) { ok(q.clear(), "clear"); ref.clear(); } else if (c == 2) { std::shared_ptr<V> x; bool r = q.waitPopWithTimeout(x, 0).isOK(); MC_ASSERT(r == !ref.empty() && (!r || x->v == ref.front()), "order"); if (r) ref.pop_front(); } else { q.push(std::make_shared<V>(k + 1), c ? URingBufferPushStrategy::REPLACE : URingBufferPushStrategy::DROP); if (ref.size() < (size_t)cap) ref.push_back(k + 1); else if (c && cap) { ref.pop_front(); ref.push_back(k + 1); } } } while (!ref.empty()) { std::shared_ptr<V> x; ok(q.waitPopWithTimeout(x, 0), "pop"); MC_ASSERT(x->v == ref.front(), "order"); ref.pop_front(); } } MC_ASSERT(live == 0, "%ld values are not freed", live); }
MC_SCENARIO(ring_buffer_clear, 3, 3, 5, 5) { start(); { UAtomicRingBufferQueue<V> q; q.setCapacity(1); q.push(std::make_shared<V>(1), URingBufferPushStrategy::WAIT); mc_explore(1); std::thread a([&] { q.push(std::make_shared<V>(2), URingBufferPushStrategy::WAIT); }); ok(q.clear(), "clear"); a.join(); mc_explore(0); std::shared_ptr<V> x; ok(q.waitPopWithTimeout(x, 0), "pop"); MC_ASSERT(x->v == 2, "got %ld", x->v); } MC_ASSERT(live == 0, "%ld values are not freed", live); }
