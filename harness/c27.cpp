// C27: the locks and the semaphore the library offers: spin lock, mutex with condition, counting semaphore.
#include "common.h"
#include <thread>
VT_MAIN
using namespace vt;
static long shared_;                     // plain data protected by the lock
static mc::Var inside, waits;
static void start() { shared_ = 0; inside.v = waits.v = 0; mc_ordered(&shared_, sizeof shared_); }
__attribute__((noinline)) static void section() { MC_ASSERT(inside.add(1) == 1, "two threads hold the lock"); long x = shared_; mc_point(); shared_ = x + 1; inside.add(-1); }
// every program of lock / tryLock on one spin lock
static void spin(int threads, int ops) {
    start(); USpinLock l; int k[3][3]; for (int t = 0; t < threads; t++) for (int i = 0; i < ops; i++) k[t][i] = mc_choose(2, "call"); mc::Var got; mc_explore(1);
    auto work = [&](int t) { for (int i = 0; i < ops; i++) { if (k[t][i]) { if (!l.tryLock()) { mc_obs(&inside, 0); continue; } } else l.lock(); got.add(1); section(); l.unlock(); } };
    std::vector<std::thread> th; for (int t = 1; t < threads; t++) th.emplace_back(work, t); work(0); for (auto &x : th) x.join(); mc_explore(0);
    MC_ASSERT(shared_ == got.peek(), "%ld of %ld sections took effect", shared_, got.peek()); for (int t = 0; t < threads; t++) for (int i = 0; i < ops; i++) if (!k[t][i]) got.padd(-1); MC_ASSERT(got.peek() >= 0, "lock() without the lock"); MC_ASSERT(l.tryLock(), "the free lock cannot be taken"); MC_ASSERT(!l.tryLock(), "the lock was taken twice"); l.unlock(); l.lock(); l.unlock();
}
MC_SCENARIO(spin_2x1, 5, 5, 8, 8) { spin(2, 1); }
MC_SCENARIO(spin_2x2, 5, 5, 8, 8) { spin(2, 2); }
MC_SCENARIO(spin_3x1, 4, 4, 6, 6) { spin(3, 1); }
MC_SCENARIO(spin_3x2, -1, -1, 3, 3) { spin(3, 2); }
// a tryLock() fails only while another holds the lock
MC_SCENARIO(spin_try, 4, 4, 6, 6) { start(); USpinLock l; mc::Var held; mc_explore(1); std::thread a([&] { held.add(1); l.lock(); section(); l.unlock(); held.add(1); }); long before = held.get(); bool r = l.tryLock(); long after = held.get(); MC_ASSERT(r || !(before == 0 && after == 0) , "tryLock() failed although nobody had asked for the lock"); MC_ASSERT(r || before != 2, "tryLock() failed although the lock was free"); if (r) { section(); l.unlock(); } a.join(); mc_explore(0); }
// the semaphore: each signal lets exactly one waiter go, now or later, in any order of the calls
static void sema(int waiters, int signallers, int each, int ahead) {
    start(); USemaphore s; mc::Var given, through; int total = waiters, rest = total - ahead, sp = mc_choose(2, "spurious"); for (int i = 0; i < ahead; i++) { given.padd(1); give(i); s.signal(); } if (sp) mc_spurious(1); mc_explore(1); std::vector<std::thread> th;
    for (int w = 0; w < waiters; w++) th.emplace_back([&] { s.wait(); long n = through.add(1); MC_ASSERT(n <= given.get(), "%ld waiters passed after %ld signals", n, given.peek()); });
    (void)each; int a = rest / signallers; for (int k = 1; k < signallers; k++) th.emplace_back([&] { for (int i = 0; i < a; i++) { given.add(1); s.signal(); } }); for (int i = 0; i < rest - a * (signallers - 1); i++) { given.add(1); s.signal(); } for (auto &x : th) x.join(); mc_explore(0); MC_ASSERT(through.peek() == total, "%ld of %d waiters passed", through.peek(), total);
}
MC_SCENARIO(semaphore_1_1, 4, 4, 6, 6) { sema(1, 1, 1, mc_choose(2, "ahead")); }
MC_SCENARIO(semaphore_2_1, 4, 4, 6, 6) { sema(2, 1, 2, mc_choose(3, "ahead")); }
MC_SCENARIO(semaphore_2_2, 4, 4, 5, 5) { sema(2, 2, 1, 0); }
MC_SCENARIO(semaphore_3_2, 3, 3, 4, 4) { sema(3, 2, 1, mc_choose(2, "ahead")); }
// nobody passes without a signal, and the writes before a signal are seen by whom it lets go
MC_SCENARIO(semaphore_order, 4, 4, 6, 6) { start(); USemaphore s; mc_explore(1); std::thread a([&] { s.wait(); MC_ASSERT(shared_ == 1, "passed before the signal"); shared_ = 2; }); shared_ = 1; s.signal(); a.join(); MC_ASSERT(shared_ == 2, "lost"); mc_explore(0); }
MC_SCENARIO(semaphore_blocks, 4, 4, 6, 6) { start(); USemaphore s; int n = mc_choose(3, "signals"); for (int i = 0; i < n; i++) s.signal(); mc::Var through; mc_explore(1); std::thread a([&] { for (int i = 0; i <= n; i++) { s.wait(); through.add(1); } }); std::this_thread::sleep_for(std::chrono::milliseconds(5)); MC_ASSERT(through.get() == n, "%ld waits passed with %d signals", through.peek(), n); s.signal(); a.join(); mc_explore(0); MC_ASSERT(through.peek() == n + 1, "lost"); }
// used as a mutex
MC_SCENARIO(semaphore_mutex, 4, 4, 5, 5) { start(); USemaphore s; s.signal(); int n = 2 + mc_choose(2, "threads"); mc_explore(1); std::vector<std::thread> th; for (int t = 0; t < n; t++) th.emplace_back([&] { s.wait(); section(); s.signal(); }); for (auto &x : th) x.join(); mc_explore(0); MC_ASSERT(shared_ == n, "lost"); }
// ping-pong with two semaphores: strict alternation
MC_SCENARIO(semaphore_ping_pong, 5, 5, 8, 8) { start(); USemaphore p, q; mc_explore(1); std::thread a([&] { for (int i = 0; i < 3; i++) { p.wait(); MC_ASSERT(shared_ == 2 * i + 1, "out of turn"); shared_++; q.signal(); } }); for (int i = 0; i < 3; i++) { MC_ASSERT(shared_ == 2 * i, "out of turn"); shared_++; p.signal(); q.wait(); } a.join(); mc_explore(0); MC_ASSERT(shared_ == 6, "lost"); }
// mutex and condition in one object
MC_SCENARIO(cv_mutex, 5, 5, 7, 7) { start(); UCvMutex m; int n = 1 + mc_choose(2, "waiters"); bool go = false; mc_explore(1); std::vector<std::thread> th; for (int t = 0; t < n; t++) th.emplace_back([&] { std::unique_lock<std::mutex> lk(m.mtx_); m.cv_.wait(lk, [&] { return go; }); section(); }); { std::unique_lock<std::mutex> lk(m.mtx_); section(); go = true; m.cv_.notify_all(); } for (auto &x : th) x.join(); mc_explore(0); MC_ASSERT(shared_ == n + 1, "lost"); }
