// API of the model-checking runtime, used by scenario code (compiled with the code under test).
#ifndef MC_H
#define MC_H
#include <cstdint>
#include <cstddef>
#include <string>

extern "C" {
// Data nondeterminism: returns every value in [0,n) over the exploration (costs no deviation).
int mc_choose(int n, const char *what);
// Reports a violation of the property on this execution and abandons the execution. Never returns.
[[noreturn]] void mc_fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// Line for the replay trace only.
void mc_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// Turns branching at scheduling points on/off for the current execution (setup and teardown phases).
void mc_explore(int on);
// Timers become choices (a timed wait may expire as soon as it starts), not only when nothing else can run.
void mc_timers(int on);
// Spurious condition-variable wakeups become choices.
void mc_spurious(int on);
// Silently abandons this execution (assume()).
[[noreturn]] void mc_discard();
// Records an observed outcome (distinct ones are counted and sampled in the evidence).
void mc_outcome(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// A pure scheduling point.
void mc_point();
// Oracle variables: visible read/write of an observation, scheduling point + part of the trace identity.
void mc_obs(const void *obj, int write);
int mc_tid();
uint64_t mc_now_ms();        // virtual time
int mc_live_threads();       // threads started and not finished, the caller excluded
int mc_blocked_threads();
size_t mc_live_bytes();      // bytes of live heap allocations of this execution
// Two unordered accesses (no happens-before by the memory orders actually used) to this range are a violation of this execution.
void mc_ordered(const void *p, size_t n);
int mc_is_replay();
}
#define MC_ASSERT(c, ...) do { if (!(c)) mc_fail(__VA_ARGS__); } while (0)

namespace mc {
// A counter/flag of the oracle. Reads and writes are scheduling points and order-relevant.
struct Var {
    long v;
    explicit Var(long x = 0) : v(x) {}
    __attribute__((no_sanitize("thread"))) long get() const { mc_obs(this, 0); return v; }
    __attribute__((no_sanitize("thread"))) void set(long x) { mc_obs(this, 1); v = x; }
    __attribute__((no_sanitize("thread"))) long add(long x) { mc_obs(this, 1); v += x; return v; }
    // without scheduling point / trace identity: only for values read after everything joined
    __attribute__((no_sanitize("thread"))) long peek() const { return v; }
    __attribute__((no_sanitize("thread"))) long padd(long x) { v += x; return v; }
};

struct Scenario {
    const char *name;
    void (*fn)();
    int pmax_quick, dmax_quick, pmax_thorough, dmax_thorough;
    Scenario *next;
    static Scenario *&head() { static Scenario *h = nullptr; return h; }
    Scenario(const char *n, void (*f)(), int pq, int dq, int pt, int dt)
        : name(n), fn(f), pmax_quick(pq), dmax_quick(dq), pmax_thorough(pt), dmax_thorough(dt) { next = head(); head() = this; }
};
}
// bounds: preemptions / total deviations, for the quick and for the thorough tier
#define MC_SCENARIO(id, pq, dq, pt, dt) \
    static void id(); static mc::Scenario mc_scn_##id(#id, id, pq, dq, pt, dt); static void id()
#endif
