// Model-checking runtime: runs the real code (compiled with -fsanitize=thread instrumentation, linked WITHOUT the
// TSan runtime) on fibers inside one OS thread, takes over every source of nondeterminism (threads, mutexes,
// condition variables, futures, once, atomics, yields, sleeps, clocks, random_device, heap addresses) and enumerates
// schedules exhaustively up to a bound on preemptions / deviations from the default scheduler.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <sys/single_threaded.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <execinfo.h>
#include <new>
#include <sstream>
#include <iostream>
#include <chrono>
#include <random>
#include <future>
#include <exception>
#include <cxxabi.h>
#include "mc.h"

typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;
#define likely_(x) __builtin_expect(!!(x), 1)
#define unlikely_(x) __builtin_expect(!!(x), 0)

static const int MAXT = 24;
static const size_t STACK_SZ = 512 << 10;
static const u64 ARENA_BASE = 0x200000000000ull;
static const u64 ARENA_PER = 64ull << 20;             // per thread
static const u64 ARENA_N = MAXT + 1;                  // slot MAXT = static (pre-main) arena
static const u64 ARENA_END = ARENA_BASE + ARENA_PER * ARENA_N;
static const u64 SHADOW_BASE = 0x210000000000ull;     // 1 byte / 8 bytes of arena
static const u64 RSH_BASE = 0x220000000000ull;        // race cells of arena
static const u64 RSHG_BASE = 0x240000000000ull;       // race cells of globals
static const u64 RSHS_BASE = 0x250000000000ull;       // race cells of stacks
static const u64 STACK_BASE = 0x260000000000ull;
static const int MAXE = 96;

extern "C" { extern char __data_start[], edata[], __bss_start[], end[], etext[], __executable_start[]; }

static u64 mix(u64 x) { x ^= x >> 32; x *= 0xd6e8feb86659fd93ull; x ^= x >> 32; x *= 0xd6e8feb86659fd93ull; x ^= x >> 32; return x; }
static u64 mix2(u64 a, u64 b) { return mix(a * 0x9e3779b97f4a7c15ull + mix(b + 0x632be59bd9b4e019ull)); }

enum Kind { K_START, K_EXIT, K_LOCK, K_UNLOCK, K_TRYLOCK, K_WAIT, K_WAKE, K_SIGNAL, K_BCAST, K_LOAD, K_STORE, K_RMW, K_PREAD,
    K_PWRITE, K_CREATE, K_JOIN, K_YIELD, K_SLEEP, K_FWAIT, K_FWAKE, K_ONCE, K_OBSR, K_OBSW, K_POINT, K_CLOCK, K_TIMEOUT, K_CHOOSE, K_GUARD };
static const char *kname[] = { "start", "exit", "lock", "unlock", "trylock", "cond_wait", "cond_wake", "signal", "broadcast", "load",
    "store", "rmw", "read", "write", "create", "join", "yield", "sleep", "futex_wait", "futex_wake", "once", "obs_r", "obs_w", "point",
    "clock", "timeout", "choose", "guard" };

struct Entry { u32 idx; u16 val; u16 pad; };
struct Item { u16 n; u8 p, d; u32 check; Entry e[MAXE]; };

struct SyncObj { u64 key; u32 gen; u32 vc[MAXT]; u64 wh, rs; int last; bool shared; };

struct RCell { u32 gen; u32 wclk; u32 wpc; u8 wtid, wmask, rn, pad; struct { u32 clk, pc; u8 tid, mask; u16 pad; } r[3]; };

struct Thr {
    int id; u8 st;             // 0 unused, 1 alive, 2 done
    void *sp; char *stack; void *(*start)(void *); void *arg; void *ret; bool detached;
    u8 wk;                     // wait kind
    void *wobj, *wobj2; u64 deadline; bool timed, timedout, signaled;
    bool yielded; u64 ycnt;    // yields
    Kind pk; void *po;
    u32 vc[MAXT]; u64 h; u32 nev; u32 consec;
    u64 eh[2];
    u64 arena;                 // bump offset
    const void *spin_addr; u64 spin_val; u32 spin_n;
    u64 waitseq;
    const char *pdesc;
};
enum { W_NONE, W_MUTEX, W_COND, W_FUTEX, W_JOIN, W_SLEEP, W_ONCE };

struct Viol { volatile int have; char msg[2048]; char scen[128]; Item item; };

static const u32 VISITED_BITS = 25;
static const u32 SHQ_CAP = 60000;

struct Shm {
    volatile int lock; volatile long outstanding; volatile int stop; volatile int incomplete; volatile int internal_err; char ierr[1024];
    volatile u64 execs, pruned, transitions, points, states, discards, maxpoints, knownhits, maxthr;
    volatile int dirty, restart; u64 dirty_limit; volatile u64 nracy, nshared; u64 races;
    Viol viol;
    // known-finding signatures hit
    struct { char sig[256]; volatile u64 n; Item item; } known[32]; int nknown;
    volatile u32 qn;
    // outcomes
    struct { u64 h; volatile u64 n; char s[160]; Item item; } outc[4096]; volatile int noutc;
    volatile u64 racy_pc[8192]; char dummy[64];
    volatile u64 sample_n; Item samples[4]; u32 sample_points[4];
    Item q[SHQ_CAP];
};
static const u32 SHARED_BITS = 18;

struct Rt {
    bool in_exec, in_rt, explore, timers, spurious, trace, record, replaying;
    u64 now; u32 gen;
    Thr thr[MAXT]; int nthr; Thr *cur;
    void *main_sp;
    u64 static_off;
    // exec
    Item cur_item; int pos; u32 ptidx; u32 last_idx; u8 p, d;
    u64 steps, accesses; bool pruned, discarded, failed; char failmsg[2048];
    u32 yield_streak; u64 waitseq;
    bool timer_dirty;
    // recorded choices (nondefault)
    Item rec;
    // config
    int pmax, dmax; u64 max_steps, max_acc; const mc::Scenario *scn; bool race_detect; int tier;
    Shm *sh; u64 *visited; u64 *sharedtab; u64 *frozen; u8 *racytab; u64 text0; size_t text_sz;
    SyncObj *so; 
    char *snap_data; size_t data_sz; char *snap_static; u64 snap_static_off; u8 *snap_shadow;
    Item *stk; size_t nstk, cstk;
    u64 rnd; u64 hashsalt; u64 exec_hash; u64 live_bytes; u64 max_arena[MAXT];
    bool use_shared_filter;
    struct { u64 a, e; } ord[16]; u32 nord;
    FILE *tf;
    struct { u64 k; u32 gen; } own[8192]; u32 nown;
    u64 l_execs, l_trans, l_points, l_states, l_pruned;
};
static Rt *R;   // set once before the snapshot; restored to the same value

static void die_internal(const char *fmt, ...) {
    char b[900]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (R && R->sh) { if (!__sync_lock_test_and_set(&R->sh->internal_err, 1)) snprintf(R->sh->ierr, sizeof R->sh->ierr, "%s", b); R->sh->stop = 1; }
    fprintf(stderr, "mc internal error: %s\n", b);
    _exit(4);
}

// ------------------------------------------------------------------ context switch
extern "C" void mc_swap(void **from_sp, void *to_sp);
asm(R"(
.text
.globl mc_swap
.type mc_swap,@function
mc_swap:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size mc_swap,.-mc_swap
)");

static inline u64 *eh_globals() { return (u64 *)abi::__cxa_get_globals(); }

static void switch_to(Thr *t) {
    Thr *c = R->cur;
    if (c == t) return;
    u64 *g = eh_globals();
    if (c) { c->eh[0] = g[0]; c->eh[1] = g[1]; }
    g[0] = t->eh[0]; g[1] = t->eh[1];
    R->cur = t;
    void *dummy;
    mc_swap(c ? &c->sp : &dummy, t->sp);
}
[[noreturn]] static void to_main() {
    u64 *g = eh_globals(); g[0] = g[1] = 0;
    void *dummy; R->in_exec = false; R->cur = nullptr;
    mc_swap(&dummy, R->main_sp);
    __builtin_unreachable();
}

// ------------------------------------------------------------------ failures
[[noreturn]] static void fail_exec(const char *msg) {
    R->failed = true; snprintf(R->failmsg, sizeof R->failmsg, "%s", msg);
    if (R->trace) fprintf(R->tf, "!! VIOLATION: %s\n", msg);
    to_main();
}
extern "C" void mc_fail(const char *fmt, ...) {
    char b[1900]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (!R->in_exec) { fprintf(stderr, "mc_fail outside of an execution: %s\n", b); _exit(4); }
    fail_exec(b);
}
extern "C" void mc_discard() { R->discarded = true; to_main(); }

// ------------------------------------------------------------------ sync objects
static SyncObj *sobj(const void *p) {
    u64 k = (u64)p; u32 m = (1u << 15) - 1; u32 i = (u32)mix(k) & m;
    for (u32 n = 0; ; n++) {
        SyncObj *o = &R->so[i];
        if (o->gen != R->gen) { memset(o, 0, sizeof *o); o->gen = R->gen; o->key = k; o->last = -1; return o; }
        if (o->key == k) return o;
        i = (i + 1) & m;
        if (n > m - 10) die_internal("sync object table full");
    }
}
// frozen copy of the table: the branching points must not change during a round
static bool shared_has(u64 k) {
    u32 m = (1u << SHARED_BITS) - 1, i = (u32)mix(k) & m;
    while (u64 v = R->frozen[i]) { if (v == k) return true; i = (i + 1) & m; }
    return false;
}
static void shared_add(u64 k) {
    u32 m = (1u << SHARED_BITS) - 1, i = (u32)mix(k) & m;
    for (;;) {
        u64 v = __atomic_load_n(&R->sharedtab[i], __ATOMIC_RELAXED);
        if (v == k) return;
        if (!v) { u64 z = 0; if (__atomic_compare_exchange_n(&R->sharedtab[i], &z, k, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
                u64 n = __sync_add_and_fetch(&R->sh->nshared, 1); R->sh->dirty = 1;
                if (n > (1u << SHARED_BITS) / 2) die_internal("shared table full"); return; }
            if (z == k) return; }
        i = (i + 1) & m;
    }
}
// commits the event of the current thread on obj into the trace hash (and detects sharing)
static void commit(Kind k, const void *obj, bool wr, u64 extra = 0) {
    Thr *t = R->cur; SyncObj *o = obj ? sobj(obj) : nullptr;
    u64 e = mix2(t->h + k * 1315423911ull, extra + (u64)obj);
    t->nev++;
    if (o) {
        if (wr) { e = mix2(e, o->wh + mix(o->rs)); o->wh = e; o->rs = 0; }
        else { e = mix2(e, o->wh); o->rs += mix(e); }
        if (o->last < 0) { o->last = t->id; o->shared = shared_has((u64)obj); }
        else if (o->last != t->id && !o->shared) { o->shared = true; shared_add((u64)obj); }
    }
    t->h = e;
}
static u64 state_key() {
    u64 s = 0x1234567;
    for (int i = 0; i < R->nthr; i++) { Thr *t = &R->thr[i]; s += mix2(t->h + t->yielded * 7 + t->st * 31, i + 1); }
    s = mix2(s, R->cur->id + 100 * R->explore + 1000 * R->timers + 10000 * R->spurious);
    s = mix2(s, R->now);
    return s | 1;
}

// ------------------------------------------------------------------ scheduling
static bool mutex_free(void *m) { return *(volatile u32 *)m == 0; }
static bool enabled(Thr *t) {
    if (t->st != 1) return false;
    switch (t->wk) {
        case W_NONE: return true;
        case W_MUTEX: return mutex_free(t->wobj);
        case W_JOIN: return ((Thr *)t->wobj)->st == 2;
        case W_ONCE: return *(volatile int *)t->wobj == 2 || *(volatile int *)t->wobj == 0;
        default: return false;   // COND, FUTEX, SLEEP: need an event
    }
}
static Thr *earliest_timer() {
    Thr *b = nullptr;
    for (int i = 0; i < R->nthr; i++) { Thr *t = &R->thr[i];
        if (t->st == 1 && t->timed && (t->wk == W_COND || t->wk == W_FUTEX || t->wk == W_SLEEP) && (!b || t->deadline < b->deadline)) b = t; }
    return b;
}
static void fire_timer(Thr *t) {
    if (t->deadline > R->now) { R->now = t->deadline; }
    if (R->trace) fprintf(R->tf, "   -- time %llu ms: timer of T%d fires\n", (unsigned long long)(R->now / 1000000), t->id);
    t->timedout = true; t->timed = false;
    t->h = mix2(t->h, 0x7133 + R->now);
    if (t->wk == W_COND) { t->wk = W_MUTEX; t->wobj = t->wobj2; }
    else t->wk = W_NONE;
    R->yield_streak = 0;
    for (int i = 0; i < R->nthr; i++) R->thr[i].yielded = false;
}

static void push_item(const Item &it);
// states this execution has been in (keys, reset by generation)
static bool own_has(u64 k) { u32 i = (u32)mix(k) & 8191; while (R->own[i].gen == R->gen) { if (R->own[i].k == k) return true; i = (i + 1) & 8191; } return false; }
static void own_add(u64 k) { if (R->nown > 7000) return; u32 i = (u32)mix(k) & 8191; while (R->own[i].gen == R->gen) { if (R->own[i].k == k) return; i = (i + 1) & 8191; } R->own[i].k = k; R->own[i].gen = R->gen; R->nown++; }


// take a decision among n options; cost(i) deviations for option i>0
static int decide(int n, const u8 *pc, const u8 *dc, bool data) {
    u32 idx = R->ptidx++;
    R->l_points++;
    int c = 0;
    if (R->pos < R->cur_item.n && R->cur_item.e[R->pos].idx == idx) {
        c = R->cur_item.e[R->pos].val; R->pos++;
        if (c >= n) die_internal("divergence: point %u wants choice %d of %d (scenario %s)", idx, c, n, R->scn->name);
        if (R->pos == R->cur_item.n && R->cur_item.check) {
            u32 ck = (u32)state_key(); if (ck != R->cur_item.check) die_internal("divergence: state at point %u differs on re-execution (scenario %s)", idx, R->scn->name);
        }
        R->p += pc ? pc[c] : 0; R->d += dc ? dc[c] : 0;
    } else if (R->pos >= R->cur_item.n && R->record) {
        // beyond the prefix: prune if seen, else push the alternatives
        u64 key0 = state_key(); int n_push = n;
        if (!data) {
            u64 key = (key0 & ~0xffull); u32 m = (1u << VISITED_BITS) - 1; u32 i = (u32)mix(key0) & m; u64 code = R->p * 16 + R->d; if (!key) key = 0x100;
            for (u32 probes = 0;; probes++) {
                u64 v = __atomic_load_n(&R->visited[i], __ATOMIC_RELAXED);
                if (!v) { u64 z = 0; if (__atomic_compare_exchange_n(&R->visited[i], &z, key | code, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { R->l_states++; own_add(key); break; } v = z; }
                if ((v & ~0xffull) == key) {
                    u64 vp = (v & 0xff) >> 4, vd = v & 15;
                    if (own_has(key)) { data = true; n_push = 0; break; }      // a cycle of this very execution (polling): go on, alternatives are pushed already
                    if (vp <= R->p && vd <= R->d) { R->pruned = true; to_main(); }
                    if (R->p <= vp && R->d <= vd) __atomic_store_n(&R->visited[i], key | code, __ATOMIC_RELAXED);
                    own_add(key);
                    break;
                }
                i = (i + 1) & m;
                if (probes > 4096) { R->sh->incomplete |= 2; break; }
            }
        }
        for (int a = n_push - 1; a >= 1; a--) {
            int np = R->p + (pc ? pc[a] : 0), nd = R->d + (dc ? dc[a] : 0);
            if (np > R->pmax || nd > R->dmax) continue;
            if (R->rec.n >= MAXE) { R->sh->incomplete |= 4; continue; }
            Item it = R->rec; it.p = np; it.d = nd; it.e[it.n].idx = idx; it.e[it.n].val = a; it.n++; it.check = (u32)key0;
            push_item(it);
        }
    }
    if (c) {
        if (R->rec.n >= MAXE) die_internal("too many choices");
        R->rec.e[R->rec.n].idx = idx; R->rec.e[R->rec.n].val = c; R->rec.n++;
    }
    return c;
}

static void deadlock() {
    char b[1500]; int n = snprintf(b, sizeof b, "deadlock: no thread can run:");
    for (int i = 0; i < R->nthr; i++) { Thr *t = &R->thr[i]; if (t->st != 1) continue;
        const char *w = t->wk == W_MUTEX ? "mutex" : t->wk == W_COND ? "condition variable" : t->wk == W_FUTEX ? "future" : t->wk == W_JOIN ? "join" : t->wk == W_ONCE ? "once" : "?";
        n += snprintf(b + n, sizeof b - n, " T%d(%s)", i, w); }
    fail_exec(b);
}

// chooses who runs next. self_ok: the current thread may continue.
static void reschedule() {
    Thr *c = R->cur;
    R->steps++; R->l_trans++;
    if (R->steps > R->max_steps) {
        char b[300]; snprintf(b, sizeof b, "livelock: the execution does not terminate within %llu scheduling points", (unsigned long long)R->max_steps); fail_exec(b);
    }
    for (;;) {
        Thr *opt[MAXT + 2]; u8 pc[MAXT + 2], dc[MAXT + 2]; int n = 0; int nen = 0;
        bool curen = enabled(c), cont = curen && !c->yielded;
        if (cont) { opt[n] = c; pc[n] = dc[n] = 0; n++; }
        for (int k = 1; k <= R->nthr; k++) { Thr *t = &R->thr[(c->id + k) % R->nthr]; if (t == c || !enabled(t)) continue; nen++;
            if (t->yielded) continue;
            opt[n] = t; pc[n] = cont ? 1 : 0; dc[n] = n ? 1 : 0; n++; }
        if (curen) nen++;
        Thr *tm = nullptr;
        if (n == 0 && nen > 0) {
            // everybody that could run has yielded (polling loops)
            tm = R->yield_streak > 20u * nen + 20 ? earliest_timer() : nullptr;
            if (tm) { fire_timer(tm); continue; }
            for (int k = 1; k <= R->nthr; k++) { Thr *t = &R->thr[(c->id + k) % R->nthr]; if (enabled(t)) { opt[n] = t; pc[n] = dc[n] = 0; n++; break; } }
        } else if (n > 0 && R->yield_streak > 60u * nen + 60 && (tm = earliest_timer())) {
            fire_timer(tm); continue;
        }
        if (n == 0) { tm = earliest_timer(); if (tm) { fire_timer(tm); continue; } deadlock(); }
        int ntm = 0; Thr *sp[MAXT]; int nsp = 0;
        if (R->timers && R->explore) { tm = earliest_timer(); if (tm) { pc[n] = 1; dc[n] = 1; n++; ntm = 1; } }
        if (R->spurious && R->explore) for (int i = 0; i < R->nthr && n < MAXT; i++) { Thr *t = &R->thr[i]; if (t->st == 1 && t->wk == W_COND) { pc[n] = dc[n] = 1; n++; sp[nsp++] = t; } }
        int ch = 0;
        bool branch = R->explore && n > 1;
        if (branch && cont && R->use_shared_filter && c->po) {
            // an operation on an object no other thread ever touches is not a preemption point
            Kind k = c->pk;
            if (k != K_YIELD && k != K_POINT && k != K_CREATE && k != K_JOIN && k != K_EXIT && k != K_START && !ntm && !nsp && !shared_has((u64)c->po)) branch = false;
        }
        if (branch) ch = decide(n, pc, dc, false);
        if (ch >= n - ntm - nsp) {
            int x = ch - (n - ntm - nsp);
            if (ntm && x == 0) { fire_timer(tm); continue; }
            Thr *t = sp[x - ntm]; t->wk = W_MUTEX; t->wobj = t->wobj2; t->timed = false; t->h = mix2(t->h, 0x5915);
            if (R->trace) fprintf(R->tf, "   -- spurious wakeup of T%d\n", t->id);
            continue;
        }
        Thr *t = opt[ch];
        if (t != c) t->consec = 0;
        if (t->yielded) t->yielded = false;
        switch_to(t);
        return;
    }
}
static void trace_op(Kind k, const void *obj, u64 v = 0) {
    if (R->trace) fprintf(R->tf, "T%d %s %p %llx\n", R->cur->id, kname[k], obj, (unsigned long long)v);
}
// scheduling point before a visible operation which is always enabled
static void visible(Kind k, const void *obj) {
    Thr *c = R->cur; c->pk = k; c->po = (void *)obj; c->wk = W_NONE;
    if (++c->consec > 3000) { c->consec = 0; c->yielded = true; R->yield_streak++; }
    reschedule();
    if (k != K_YIELD) for (int i = 0; i < R->nthr; i++) if (&R->thr[i] != R->cur) R->thr[i].yielded = false;
}
// blocks the current thread (wait kind set by the caller) until chosen again
static void block() { Thr *c = R->cur; c->consec = 0; c->po = nullptr; reschedule();
    for (int i = 0; i < R->nthr; i++) if (&R->thr[i] != R->cur) R->thr[i].yielded = false; }

static void vc_join(u32 *a, const u32 *b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }
static void hb_acquire(const void *o) { vc_join(R->cur->vc, sobj(o)->vc); }
static void hb_release(const void *o) { Thr *t = R->cur; vc_join(sobj(o)->vc, t->vc); t->vc[t->id]++; }

// ------------------------------------------------------------------ heap
static inline bool in_arena(u64 a) { return a >= ARENA_BASE && a < ARENA_END; }
static inline u8 *shadow(u64 a) { return (u8 *)(SHADOW_BASE + ((a - ARENA_BASE) >> 3)); }
static void *arena_alloc(size_t n, size_t align) {
    u64 *off; u64 base; 
    if (R && R->in_exec && R->cur) { off = &R->cur->arena; base = ARENA_BASE + ARENA_PER * R->cur->id; }
    else { off = &R->static_off; base = ARENA_BASE + ARENA_PER * MAXT; }
    if (align < 16) align = 16;
    u64 a = (*off + 32 + align - 1) / align * align;     // >=16 bytes redzone in front, size stored there
    u64 sz = n ? n : 1;
    u64 e = (a + sz + 15) / 16 * 16 + 16;
    if (e > ARENA_PER) { if (R->in_exec) fail_exec("memory: one thread allocated more than 64 MB"); die_internal("static arena full"); }
    *off = e;
    u64 p = base + a;
    ((u64 *)p)[-1] = n; ((u64 *)p)[-2] = 0xA110CA7EDull;
    memset((void *)p, 0xCB, sz);
    memset(shadow(p), 1, (sz + 7) / 8);
    R->live_bytes += n;
    return (void *)p;
}
static void free_event(u64 p, u64 n, u64 pc);
static void arena_free(void *q, u64 pc) {
    if (!q) return;
    u64 p = (u64)q;
    if (!in_arena(p)) { free(q); return; }
    if (((u64 *)p)[-2] != 0xA110CA7EDull) {
        if (R->in_exec) fail_exec(((u64 *)p)[-2] == 0xF4EEDull ? "memory: double free" : "memory: free of a pointer that is not an allocation");
        return;
    }
    u64 n = ((u64 *)p)[-1];
    if (R->in_exec && R->cur) { free_event(p, n, pc); if (((u64 *)p)[-2] != 0xA110CA7EDull) fail_exec("memory: double free"); }
    ((u64 *)p)[-2] = 0xF4EEDull;
    memset(shadow(p), 2, ((n ? n : 1) + 7) / 8);
    if (n) memset(q, 0xDD, n);
    R->live_bytes -= n;
}
static void rt_early_init();
void *operator new(size_t n) { if (!R) rt_early_init(); return arena_alloc(n, 16); }
void *operator new[](size_t n) { if (!R) rt_early_init(); return arena_alloc(n, 16); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { if (!R) rt_early_init(); return arena_alloc(n, 16); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { if (!R) rt_early_init(); return arena_alloc(n, 16); }
void *operator new(size_t n, std::align_val_t a) { if (!R) rt_early_init(); return arena_alloc(n, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { if (!R) rt_early_init(); return arena_alloc(n, (size_t)a); }
void operator delete(void *p) noexcept { arena_free(p, (u64)__builtin_return_address(0)); }
void operator delete[](void *p) noexcept { arena_free(p, (u64)__builtin_return_address(0)); }
void operator delete(void *p, size_t) noexcept { arena_free(p, (u64)__builtin_return_address(0)); }
void operator delete[](void *p, size_t) noexcept { arena_free(p, (u64)__builtin_return_address(0)); }
void operator delete(void *p, std::align_val_t) noexcept { arena_free(p, (u64)__builtin_return_address(0)); }
void operator delete[](void *p, std::align_val_t) noexcept { arena_free(p, (u64)__builtin_return_address(0)); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { arena_free(p, (u64)__builtin_return_address(0)); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { arena_free(p, (u64)__builtin_return_address(0)); }
// exception objects at deterministic addresses; 128 = sizeof(__cxa_refcounted_exception)
extern "C" void *__cxa_allocate_exception(size_t n) noexcept { if (!R) rt_early_init(); char *p = (char *)arena_alloc(n + 128, 16); memset(p, 0, 128); return p + 128; }
extern "C" void __cxa_free_exception(void *p) noexcept { arena_free((char *)p - 128, (u64)__builtin_return_address(0)); }

static void describe_pc(u64 pc, char *b, size_t n) { snprintf(b, n, "pc=0x%llx", (unsigned long long)pc); }
static void check_mem(u64 a, size_t n, bool wr, u64 pc) {
    u8 s = *shadow(a);
    if (unlikely_(s != 1)) {
        char b[200], d[64]; describe_pc(pc, d, sizeof d);
        snprintf(b, sizeof b, "memory: %s of %s heap memory", wr ? "write" : "read", s == 2 ? "freed" : "unallocated (out of bounds)");
        if (R->trace) fprintf(R->tf, "   bad access at %p size %zu %s\n", (void *)a, n, d);
        fail_exec(b);
    }
}
// ------------------------------------------------------------------ plain accesses
static inline RCell *rcell(u64 a) {
    if (in_arena(a)) return (RCell *)(RSH_BASE + ((a - ARENA_BASE) >> 3) * sizeof(RCell));
    if (a >= STACK_BASE && a < STACK_BASE + STACK_SZ * MAXT) return (RCell *)(RSHS_BASE + ((a - STACK_BASE) >> 3) * sizeof(RCell));
    if (a >= (u64)__data_start && a < (u64)end) return (RCell *)(RSHG_BASE + ((a - (u64)__data_start) >> 3) * sizeof(RCell));
    return nullptr;
}
static void racy_add(u64 pc) {
    u64 o = pc - R->text0; if (o >= R->text_sz) return;
    if (R->racytab[o]) return;
    Shm *s = R->sh;
    for (u64 i = 0; i < s->nracy && i < 8192; i++) if (s->racy_pc[i] == pc) return;
    u64 i = __sync_fetch_and_add(&s->nracy, 1);
    if (i < 8192) s->racy_pc[i] = pc;
    s->dirty = 1;
}
static void race_found(u64 a, u64 pc1, u64 pc2) {
    racy_add(pc1); racy_add(pc2);
    for (u32 i = 0; i < R->nord; i++) if (a >= R->ord[i].a && a < R->ord[i].e)
        fail_exec("memory order: data handed from one thread to another is accessed without being ordered (one may not see what the other wrote)");
}
static void race_access(u64 a, size_t n, bool wr, u64 pc) {
    RCell *c = rcell(a); if (!c) return;
    Thr *t = R->cur; u8 mask = (u8)(((n >= 8 ? 0xff : ((1u << n) - 1)) << (a & 7)) & 0xff);
    if (c->gen != R->gen) { c->gen = R->gen; c->wmask = 0; c->rn = 0; }
    if (c->wmask & mask && c->wtid != t->id && c->wclk > t->vc[c->wtid]) race_found(a, c->wpc, pc);
    if (wr) {
        for (int i = 0; i < c->rn; i++) if ((c->r[i].mask & mask) && c->r[i].tid != t->id && c->r[i].clk > t->vc[c->r[i].tid]) race_found(a, c->r[i].pc, pc);
        if (mask == 0xff || c->wtid == t->id || true) { c->wtid = t->id; c->wclk = t->vc[t->id]; c->wpc = (u32)pc; c->wmask = mask; }
        c->rn = 0;
    } else {
        for (int i = 0; i < c->rn; i++) if (c->r[i].tid == t->id) { c->r[i].clk = t->vc[t->id]; c->r[i].pc = (u32)pc; c->r[i].mask |= mask; return; }
        int i = c->rn < 3 ? c->rn++ : (int)(R->accesses % 3);
        c->r[i].tid = t->id; c->r[i].clk = t->vc[t->id]; c->r[i].pc = (u32)pc; c->r[i].mask = mask;
    }
}
static void mem_access(u64 a, size_t n, bool wr, u64 pc) {
    if (!R->in_exec) return;
    if (unlikely_(++R->accesses > R->max_acc)) {
        if (R->sh->dirty) { R->pruned = true; to_main(); }
        fail_exec("livelock: endless loop without synchronisation");
    }
    if (in_arena(a)) check_mem(a, n, wr, pc);
    u64 o = pc - R->text0;
    if (o < R->text_sz && R->racytab[o]) {
        const void *key = (const void *)(a & ~7ull);
        visible(wr ? K_PWRITE : K_PREAD, key); trace_op(wr ? K_PWRITE : K_PREAD, (void *)a); commit(wr ? K_PWRITE : K_PREAD, key, wr);
        if (in_arena(a)) check_mem(a, n, wr, pc);
    }
    if (R->race_detect && R->nthr > 1) race_access(a, n, wr, pc);
}
// freeing a block conflicts with every access to it
static void free_event(u64 p, u64 n, u64 pc) {
    if (!n) n = 1;
    u64 o = pc - R->text0;
    if (o < R->text_sz && R->racytab[o]) {
        visible(K_PWRITE, (void *)p); trace_op(K_PWRITE, (void *)p, n);
        for (u64 a = p; a < p + n && a < p + 4096; a += 8) commit(K_PWRITE, (void *)a, true);
    }
    if (R->race_detect && R->nthr > 1) for (u64 a = p; a < p + n && a < p + 4096; a += 8) race_access(a, 8, true, pc);
}
#define PC ((u64)__builtin_return_address(0))
extern "C" {
#define RW(n) \
    void __tsan_read##n(void *a) { mem_access((u64)a, n, false, PC); } \
    void __tsan_write##n(void *a) { mem_access((u64)a, n, true, PC); } \
    void __tsan_unaligned_read##n(void *a) { mem_access((u64)a, n, false, PC); } \
    void __tsan_unaligned_write##n(void *a) { mem_access((u64)a, n, true, PC); } \
    void __tsan_read_write##n(void *a) { u64 p = PC; mem_access((u64)a, n, false, p); mem_access((u64)a, n, true, p); } \
    void __tsan_unaligned_read_write##n(void *a) { u64 p = PC; mem_access((u64)a, n, false, p); mem_access((u64)a, n, true, p); } \
    void __tsan_volatile_read##n(void *a) { mem_access((u64)a, n, false, PC); } \
    void __tsan_volatile_write##n(void *a) { mem_access((u64)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **a, void *) { mem_access((u64)a, 8, true, PC); }
void __tsan_vptr_read(void **a) { mem_access((u64)a, 8, false, PC); }
static void range(u64 a, size_t n, bool wr, u64 pc) { if (!R->in_exec || !n) return; u64 e = a + n;
    if (n > 4096) { mem_access(a, 1, wr, pc); mem_access(e - 1, 1, wr, pc); return; }
    while (a < e) { u64 s = 8 - (a & 7); if (s > e - a) s = e - a; mem_access(a, s, wr, pc); a += s; } }
void __tsan_read_range(void *a, size_t n) { range((u64)a, n, false, PC); }
void __tsan_write_range(void *a, size_t n) { range((u64)a, n, true, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { u64 p = PC; range((u64)s, n, false, p); range((u64)d, n, true, p); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { u64 p = PC; range((u64)s, n, false, p); range((u64)d, n, true, p); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { u64 p = PC; range((u64)d, n, true, p); return memset(d, c, n); }
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_init() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
}
// ------------------------------------------------------------------ atomics
static bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void spin_note(const void *a, u64 v) {
    Thr *t = R->cur;
    if (t->spin_addr == a && t->spin_val == v) { if (++t->spin_n >= 3) { t->spin_n = 0; t->yielded = true; R->yield_streak++; } }
    else { t->spin_addr = a; t->spin_val = v; t->spin_n = 0; }
}
static void spin_clear() { R->cur->spin_n = 0; R->cur->spin_addr = nullptr; }
template <class T> static T a_load(const volatile T *a, int mo) {
    if (!R->in_exec) return __atomic_load_n(a, __ATOMIC_SEQ_CST);
    if (in_arena((u64)a)) check_mem((u64)a, sizeof(T), false, 0);
    visible(K_LOAD, (void *)a); if (in_arena((u64)a)) check_mem((u64)a, sizeof(T), false, 0); T v = *a; trace_op(K_LOAD, (void *)a, (u64)v); commit(K_LOAD, (void *)a, false);
    if (acq(mo)) hb_acquire((void *)a);
    spin_note((void *)a, (u64)v);
    return v;
}
template <class T> static void a_store(volatile T *a, T v, int mo) {
    if (!R->in_exec) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return; }
    if (in_arena((u64)a)) check_mem((u64)a, sizeof(T), true, 0);
    visible(K_STORE, (void *)a); if (in_arena((u64)a)) check_mem((u64)a, sizeof(T), true, 0); *a = v; trace_op(K_STORE, (void *)a, (u64)v); commit(K_STORE, (void *)a, true);
    spin_clear();
    if (rel(mo)) { SyncObj *o = sobj((void *)a); memset(o->vc, 0, sizeof o->vc); hb_release((void *)a); }
    else memset(sobj((void *)a)->vc, 0, sizeof(u32) * MAXT);
}
template <class T, class F> static T a_rmw(volatile T *a, int mo, F f) {
    if (!R->in_exec) { T o, n; do { o = *a; n = f(o); } while (!__atomic_compare_exchange_n(a, &o, n, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)); return o; }
    if (in_arena((u64)a)) check_mem((u64)a, sizeof(T), true, 0);
    visible(K_RMW, (void *)a); if (in_arena((u64)a)) check_mem((u64)a, sizeof(T), true, 0); T o = *a; T n = f(o); *a = n; trace_op(K_RMW, (void *)a, (u64)n); commit(K_RMW, (void *)a, true);
    if (n == o) spin_note((void *)a, (u64)o); else spin_clear();
    if (acq(mo)) hb_acquire((void *)a);
    if (rel(mo)) hb_release((void *)a);
    return o;
}
template <class T> static int a_cas(volatile T *a, T *e, T d, int mo, int fmo) {
    if (!R->in_exec) return __atomic_compare_exchange_n(a, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
    if (in_arena((u64)a)) check_mem((u64)a, sizeof(T), true, 0);
    visible(K_RMW, (void *)a); if (in_arena((u64)a)) check_mem((u64)a, sizeof(T), true, 0); T o = *a; bool ok = o == *e; trace_op(K_RMW, (void *)a, ok);
    commit(K_RMW, (void *)a, ok);
    if (ok) { *a = d; if (acq(mo)) hb_acquire((void *)a); if (rel(mo)) hb_release((void *)a); spin_clear(); }
    else { if (acq(fmo)) hb_acquire((void *)a); *e = o; spin_note((void *)a, (u64)o); }
    return ok;
}
extern "C" {
#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T *a, int mo) { return a_load<T>(a, mo); } \
    void __tsan_atomic##b##_store(volatile T *a, T v, int mo) { a_store<T>(a, v, mo); } \
    T __tsan_atomic##b##_exchange(volatile T *a, T v, int mo) { return a_rmw<T>(a, mo, [v](T) { return v; }); } \
    T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int mo) { return a_rmw<T>(a, mo, [v](T o) { return (T)(o + v); }); } \
    T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int mo) { return a_rmw<T>(a, mo, [v](T o) { return (T)(o - v); }); } \
    T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int mo) { return a_rmw<T>(a, mo, [v](T o) { return (T)(o & v); }); } \
    T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int mo) { return a_rmw<T>(a, mo, [v](T o) { return (T)(o | v); }); } \
    T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int mo) { return a_rmw<T>(a, mo, [v](T o) { return (T)(o ^ v); }); } \
    T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int mo) { return a_rmw<T>(a, mo, [v](T o) { return (T)~(o & v); }); } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *e, T d, int mo, int f) { return a_cas<T>(a, e, d, mo, f); } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *e, T d, int mo, int f) { return a_cas<T>(a, e, d, mo, f); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T e, T d, int mo, int f) { T x = e; a_cas<T>(a, &x, d, mo, f); return x; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int) { __sync_synchronize(); }
void __tsan_atomic_signal_fence(int) {}
}
// ------------------------------------------------------------------ pthread
static void chk_obj(const void *m) { if (in_arena((u64)m)) check_mem((u64)m, 4, true, 0); }
struct MData { volatile u32 owner; u32 cnt; };
static bool mrecursive(pthread_mutex_t *m) { return m->__data.__kind == PTHREAD_MUTEX_RECURSIVE; }
// in-place: owner+1 in the first word, recursion count in the second; __kind is left as initialised
static int mlock(pthread_mutex_t *pm) {
    MData *m = (MData *)pm;
    if (!R || !R->in_exec) { return 0; }
    chk_obj(pm);
    Thr *c = R->cur;
    if (m->owner == (u32)c->id + 1 && mrecursive(pm)) { m->cnt++; return 0; }
    c->pk = K_LOCK; c->po = pm; c->wk = W_MUTEX; c->wobj = pm; c->consec++;
    reschedule();
    for (int i = 0; i < R->nthr; i++) if (&R->thr[i] != c) R->thr[i].yielded = false;
    c->wk = W_NONE;
    chk_obj(pm);
    m->owner = c->id + 1; m->cnt = 1;
    trace_op(K_LOCK, pm); commit(K_LOCK, pm, true); hb_acquire(pm); spin_clear();
    return 0;
}
static void relock(pthread_mutex_t *pm) {   // after a wait: chosen with the mutex free
    MData *m = (MData *)pm; Thr *c = R->cur; c->wk = W_NONE;
    chk_obj(pm);
    m->owner = c->id + 1; m->cnt = 1;
    trace_op(K_WAKE, pm); commit(K_LOCK, pm, true); hb_acquire(pm);
}
static void munlock_raw(pthread_mutex_t *pm) {
    MData *m = (MData *)pm;
    if (m->owner != (u32)R->cur->id + 1) fail_exec("unlock of a mutex the thread does not hold");
    if (--m->cnt) return;
    hb_release(pm); m->owner = 0;
}
extern "C" {
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
    memset(m, 0, sizeof *m); if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; } return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) {
    if (R && R->in_exec && ((MData *)m)->owner) fail_exec("destruction of a locked mutex");
    return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) { return mlock(m); }
int pthread_mutex_trylock(pthread_mutex_t *pm) {
    MData *m = (MData *)pm;
    if (!R || !R->in_exec) return 0;
    chk_obj(pm);
    Thr *c = R->cur;
    if (m->owner == (u32)c->id + 1 && mrecursive(pm)) { m->cnt++; return 0; }
    visible(K_TRYLOCK, pm);
    chk_obj(pm);
    bool ok = m->owner == 0;
    trace_op(K_TRYLOCK, pm, ok); commit(K_TRYLOCK, pm, ok);
    if (ok) { m->owner = c->id + 1; m->cnt = 1; hb_acquire(pm); spin_clear(); return 0; }
    spin_note(pm, 1);
    return EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t *pm) {
    if (!R || !R->in_exec) return 0;
    chk_obj(pm);
    // no scheduling point before an unlock: it only enables others; the point after it is the next visible operation
    munlock_raw(pm); trace_op(K_UNLOCK, pm); commit(K_UNLOCK, pm, true);
    return 0;
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *c) {
    if (R && R->in_exec) for (int i = 0; i < R->nthr; i++) if (R->thr[i].st == 1 && R->thr[i].wk == W_COND && R->thr[i].wobj == c) fail_exec("destruction of a condition variable with a waiting thread");
    return 0; }
static int cwait(pthread_cond_t *cv, pthread_mutex_t *m, bool timed, u64 deadline) {
    if (!R->in_exec) die_internal("cond wait outside of an execution");
    chk_obj(cv); chk_obj(m);
    Thr *c = R->cur;
    visible(K_WAIT, cv); chk_obj(cv);
    if (timed && deadline <= R->now) { // expired already
        munlock_raw(m); commit(K_UNLOCK, m, true); c->wk = W_MUTEX; c->wobj = m; c->pk = K_LOCK; block(); relock(m); return ETIMEDOUT;
    }
    commit(K_WAIT, cv, true); trace_op(K_WAIT, cv);
    munlock_raw(m); commit(K_UNLOCK, m, true);
    c->wk = W_COND; c->wobj = cv; c->wobj2 = m; c->timed = timed; c->deadline = deadline; c->timedout = false; c->waitseq = ++R->waitseq; c->pk = K_WAIT;
    block();
    c->timed = false;
    relock(m);
    return c->timedout ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cwait(c, m, false, 0); }
static u64 tons(const struct timespec *t) { if (t->tv_sec > 9000000000ll) return 9000000000ull * 1000000000ull; if (t->tv_sec < 0) return 0; return (u64)t->tv_sec * 1000000000ull + t->tv_nsec; }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return cwait(c, m, true, tons(t)); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *t) { return cwait(c, m, true, tons(t)); }
static void wake_waiter(Thr *t) { t->wk = W_MUTEX; t->wobj = t->wobj2; t->timed = false; t->timedout = false; R->yield_streak = 0; }
int pthread_cond_signal(pthread_cond_t *cv) {
    if (!R || !R->in_exec) return 0;
    chk_obj(cv);
    visible(K_SIGNAL, cv);
    chk_obj(cv);
    Thr *w[MAXT]; int n = 0;
    for (int i = 0; i < R->nthr; i++) { Thr *t = &R->thr[i]; if (t->st == 1 && t->wk == W_COND && t->wobj == cv) { int j = n++; while (j > 0 && w[j - 1]->waitseq > t->waitseq) { w[j] = w[j - 1]; j--; } w[j] = t; } }
    int c = 0;
    if (n > 1 && R->explore) { u8 pc[MAXT], dc[MAXT]; for (int i = 0; i < n; i++) { pc[i] = 0; dc[i] = i ? 1 : 0; } c = decide(n, pc, dc, false); }
    if (n) { wake_waiter(w[c]); }
    trace_op(K_SIGNAL, cv, n ? w[c]->id : -1); commit(K_SIGNAL, cv, true, n ? w[c]->id : 99);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *cv) {
    if (!R || !R->in_exec) return 0;
    chk_obj(cv);
    visible(K_BCAST, cv);
    chk_obj(cv);
    for (int i = 0; i < R->nthr; i++) { Thr *t = &R->thr[i]; if (t->st == 1 && t->wk == W_COND && t->wobj == cv) wake_waiter(t); }
    trace_op(K_BCAST, cv); commit(K_BCAST, cv, true);
    return 0;
}
// reader/writer locks (GParam can be built with them): exclusive approximation is not sound for readers, so real ones
struct RW { volatile u32 writer; volatile u32 readers; };
}
static bool rw_ok(RW *r, bool wr) { return r->writer == 0 && (!wr || r->readers == 0); }
static int rwlock(pthread_rwlock_t *l, bool wr, bool tr) {
    if (!R || !R->in_exec) return 0;
    RW *r = (RW *)l; chk_obj(l);
    for (;;) {
        visible(tr ? K_TRYLOCK : K_LOCK, l);
        if (rw_ok(r, wr)) { if (wr) r->writer = R->cur->id + 1; else r->readers = r->readers + 1; commit(K_LOCK, l, true); hb_acquire(l); return 0; }
        commit(K_LOCK, l, false);
        if (tr) return EBUSY;
        R->cur->yielded = true; R->yield_streak++;
    }
}
extern "C" {
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { return rwlock(l, false, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { return rwlock(l, false, true); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { return rwlock(l, true, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { return rwlock(l, true, true); }
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
    if (!R || !R->in_exec) return 0;
    RW *r = (RW *)l; hb_release(l); if (r->writer) { if (r->writer != (u32)R->cur->id + 1) fail_exec("unlock of a rwlock the thread does not hold"); r->writer = 0; }
    else { if (!r->readers) fail_exec("unlock of a free rwlock"); r->readers = r->readers - 1; } commit(K_UNLOCK, l, true); return 0; }
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }

static void fiber_main() {
    Thr *t = R->cur;
    if (t->id != 0) { trace_op(K_START, nullptr); }
    t->ret = t->start(t->arg);
    t = R->cur;
    if (t->id == 0) { to_main(); }
    trace_op(K_EXIT, t); commit(K_EXIT, t, true); hb_release(t);
    t->st = 2; t->pk = K_EXIT; R->yield_streak = 0;
    for (int i = 0; i < R->nthr; i++) R->thr[i].yielded = false;
    reschedule();
    die_internal("finished thread resumed");
}
static Thr *new_thread(void *(*fn)(void *), void *arg) {
    if (R->nthr >= MAXT) fail_exec("too many threads");
    Thr *t = &R->thr[R->nthr]; memset(t, 0, sizeof *t);
    t->id = R->nthr++; t->st = 1; t->start = fn; t->arg = arg;
    t->stack = (char *)(STACK_BASE + STACK_SZ * t->id);
    u64 top = (u64)t->stack + STACK_SZ - 64; top &= ~15ull;
    u64 *s = (u64 *)top; *--s = 0; *--s = (u64)fiber_main; for (int i = 0; i < 6; i++) *--s = 0;
    t->sp = s;
    t->h = mix(t->id + 77);
    t->vc[t->id] = 1;
    return t;
}
int pthread_create(pthread_t *pt, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
    if (!R || !R->in_exec) die_internal("thread creation outside of an execution");
    visible(K_CREATE, &R->thr[R->nthr]);
    Thr *c = R->cur; Thr *t = new_thread(fn, arg);
    *pt = (pthread_t)t;
    memcpy(t->vc, c->vc, sizeof t->vc); t->vc[t->id] = 1; c->vc[c->id]++;
    trace_op(K_CREATE, t, t->id); commit(K_CREATE, nullptr, true, t->id); t->h = mix2(c->h, 0xc4ea7e);
    return 0;
}
int pthread_join(pthread_t p, void **ret) {
    Thr *t = (Thr *)p; Thr *c = R->cur;
    c->pk = K_JOIN; c->po = t; c->wk = W_JOIN; c->wobj = t; reschedule(); c->wk = W_NONE;
    trace_op(K_JOIN, t, t->id); commit(K_JOIN, t, true, t->id); vc_join(c->vc, t->vc); c->h = mix2(c->h, t->h);
    if (ret) *ret = t->ret;
    return 0;
}
int pthread_detach(pthread_t p) { ((Thr *)p)->detached = true; return 0; }
pthread_t pthread_self() noexcept { if (R && R->in_exec) return (pthread_t)R->cur; return (pthread_t)1; }
int pthread_setschedparam(pthread_t, int, const struct sched_param *) noexcept { return 0; }
int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t *) noexcept { return 0; }
int pthread_equal(pthread_t a, pthread_t b) noexcept { return a == b; }
static void do_yield() {
    Thr *c = R->cur; c->yielded = true; c->ycnt++; R->yield_streak++;
    visible(K_YIELD, nullptr); trace_op(K_YIELD, nullptr);
}
int sched_yield() noexcept { if (R && R->in_exec) do_yield(); return 0; }
static void do_sleep(u64 ns) {
    Thr *c = R->cur; 
    trace_op(K_SLEEP, nullptr, ns / 1000000);
    if (ns == 0) { do_yield(); return; }
    c->wk = W_SLEEP; c->timed = true; c->deadline = R->now + ns; c->pk = K_SLEEP; c->h = mix2(c->h, 0x51ee + c->deadline);
    block(); c->wk = W_NONE; c->timed = false;
}
int nanosleep(const struct timespec *t, struct timespec *) { if (R && R->in_exec) { do_sleep(tons(t)); return 0; } return syscall(SYS_nanosleep, t, nullptr); }
int clock_nanosleep(clockid_t, int flags, const struct timespec *t, struct timespec *) { u64 x = tons(t); if (flags & TIMER_ABSTIME) x = x > R->now ? x - R->now : 0; do_sleep(x); return 0; }
int usleep(useconds_t us) { if (R && R->in_exec) { do_sleep((u64)us * 1000); return 0; } struct timespec t = { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 }; return syscall(SYS_nanosleep, &t, nullptr); }
unsigned sleep(unsigned s) { if (R && R->in_exec) { do_sleep((u64)s * 1000000000ull); return 0; } struct timespec t = { (time_t)s, 0 }; syscall(SYS_nanosleep, &t, nullptr); return 0; }
int pthread_once(pthread_once_t *o, void (*fn)()) {
    volatile int *s = (volatile int *)o;
    if (!R || !R->in_exec) { if (!*s) { *s = 2; fn(); } return 0; }
    Thr *c = R->cur;
    for (;;) {
        if (*s == 2) { commit(K_ONCE, o, false); hb_acquire(o); return 0; }
        if (*s == 0) { *s = 1; commit(K_ONCE, o, true);
            try { fn(); } catch (...) { *s = 0; throw; }
            *s = 2; commit(K_ONCE, o, true); hb_release(o); return 0; }
        c->wk = W_ONCE; c->wobj = (void *)s; c->pk = K_ONCE; block(); c->wk = W_NONE;
    }
}
// function-local statics
int __cxa_guard_acquire(u64 *g) {
    volatile u8 *b = (volatile u8 *)g;
    if (!R || !R->in_exec) { if (b[0]) return 0; return 1; }
    for (;;) {
        if (b[0]) { hb_acquire(g); return 0; }
        if (!b[1]) { b[1] = 1; commit(K_GUARD, g, true); return 1; }
        visible(K_GUARD, g); if (b[1] && !b[0]) { R->cur->yielded = true; R->yield_streak++; }
    }
}
void __cxa_guard_release(u64 *g) { volatile u8 *b = (volatile u8 *)g; b[1] = 0; b[0] = 1; if (R && R->in_exec) { commit(K_GUARD, g, true); hb_release(g); } }
void __cxa_guard_abort(u64 *g) { ((volatile u8 *)g)[1] = 0; }
int __cxa_atexit(void (*)(void *), void *, void *) noexcept { return 0; }   // the process ends with _exit
}
// futures
#include <bits/atomic_futex.h>
static bool fwait(unsigned *a, unsigned v, bool timed, u64 dl) {
    chk_obj(a);
    Thr *c = R->cur;
    visible(K_FWAIT, a);
    if (*a != v) { commit(K_FWAIT, a, false); return true; }
    commit(K_FWAIT, a, true);
    if (timed && dl <= R->now) return false;
    trace_op(K_FWAIT, a);
    c->wk = W_FUTEX; c->wobj = a; c->timed = timed; c->deadline = dl; c->timedout = false; c->pk = K_FWAIT;
    block(); c->wk = W_NONE; c->timed = false;
    if (!c->timedout) hb_acquire(a);
    return !c->timedout;
}
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned *a, unsigned v, bool t, chrono::seconds s, chrono::nanoseconds n) { return fwait(a, v, t, (u64)s.count() * 1000000000ull + n.count()); }
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned *a, unsigned v, bool t, chrono::seconds s, chrono::nanoseconds n) { return fwait(a, v, t, (u64)s.count() * 1000000000ull + n.count()); }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned *a) {
    if (!R->in_exec) return;
    chk_obj(a);
    visible(K_FWAKE, a);
    for (int i = 0; i < R->nthr; i++) { Thr *t = &R->thr[i]; if (t->st == 1 && t->wk == W_FUTEX && t->wobj == a) { t->wk = W_NONE; t->timed = false; t->timedout = false; R->yield_streak = 0; } }
    trace_op(K_FWAKE, a); commit(K_FWAKE, a, true); hb_release(a);
}
}
static u64 rd_clock() { if (R && R->in_exec) { R->cur->h = mix2(R->cur->h, R->now); return R->now; } struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return tons(&t); }
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(rd_clock())); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(rd_clock())); }
} } 
unsigned random_device::_M_getval() { return R ? (unsigned)(R->rnd = mix(R->rnd + 1)) : 1; }
}
extern "C" int clock_gettime(clockid_t c, struct timespec *t) noexcept { if (R && R->in_exec) { u64 n = rd_clock(); t->tv_sec = n / 1000000000ull; t->tv_nsec = n % 1000000000ull; return 0; } return syscall(SYS_clock_gettime, c, t); }
extern "C" time_t time(time_t *p) noexcept { u64 n; if (R && R->in_exec) n = rd_clock() / 1000000000ull; else { struct timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); n = t.tv_sec; } if (p) *p = n; return n; }

// ------------------------------------------------------------------ harness API
extern "C" {
int mc_choose(int n, const char *what) {
    if (n <= 1) return 0;
    int c = decide(n, nullptr, nullptr, true);
    R->cur->h = mix2(R->cur->h, 0xc00 + c);
    if (R->trace) fprintf(R->tf, "T%d choose %s = %d of %d\n", R->cur->id, what, c, n);
    return c;
}
void mc_note(const char *fmt, ...) { if (!R->trace) return; char b[1000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); fprintf(R->tf, "T%d * %s\n", R->cur ? R->cur->id : -1, b); }
void mc_explore(int on) { R->explore = on; R->cur->h = mix2(R->cur->h, 0xe0 + on); }
void mc_timers(int on) { R->timers = on; }
void mc_spurious(int on) { R->spurious = on; }
void mc_outcome(const char *fmt, ...) {
    char b[160]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (R->trace) fprintf(R->tf, "T%d outcome %s\n", R->cur->id, b);
    u64 h = 14695981039346656037ull; for (char *p = b; *p; p++) h = (h ^ (u8)*p) * 1099511628211ull;
    Shm *s = R->sh; u32 i = (u32)mix(h) & 4095;
    for (int n = 0; n < 4096; n++) {
        if (s->outc[i].h == h) { __sync_add_and_fetch(&s->outc[i].n, 1); return; }
        if (!s->outc[i].h) { if (__sync_bool_compare_and_swap(&s->outc[i].h, 0, h)) { strcpy(s->outc[i].s, b); s->outc[i].item = R->rec; s->outc[i].n = 1; __sync_add_and_fetch(&s->noutc, 1); return; } else { n--; continue; } }
        i = (i + 1) & 4095;
    }
}
void mc_point() { visible(K_POINT, nullptr); commit(K_POINT, nullptr, true); trace_op(K_POINT, nullptr); }
void mc_obs(const void *o, int wr) { if (!R->in_exec) return; visible(wr ? K_OBSW : K_OBSR, o); trace_op(wr ? K_OBSW : K_OBSR, o); commit(wr ? K_OBSW : K_OBSR, o, wr); }
int mc_tid() { return R->cur ? R->cur->id : -1; }
uint64_t mc_now_ms() { return R->now / 1000000; }
int mc_live_threads() { int n = 0; for (int i = 0; i < R->nthr; i++) if (&R->thr[i] != R->cur && R->thr[i].st == 1) n++; return n; }
int mc_blocked_threads() { int n = 0; for (int i = 0; i < R->nthr; i++) if (R->thr[i].st == 1 && R->thr[i].wk != W_NONE) n++; return n; }
size_t mc_live_bytes() { return R->live_bytes; }
void mc_ordered(const void *p, size_t n) { if (R->nord < 16) { R->ord[R->nord].a = (u64)p; R->ord[R->nord++].e = (u64)p + n; } else die_internal("too many ordered ranges"); }
int mc_is_replay() { return R->trace; }
}
// ------------------------------------------------------------------ executions
static void *run_scenario(void *) { R->scn->fn(); return nullptr; }

static void exec_one(const Item &it) {
    // restore
    memcpy(__data_start, R->snap_data, R->data_sz);
    memcpy((void *)(ARENA_BASE + ARENA_PER * MAXT), R->snap_static, R->snap_static_off);
    memcpy(shadow(ARENA_BASE + ARENA_PER * MAXT), R->snap_shadow, R->snap_static_off / 8 + 1);
    R->static_off = R->snap_static_off;
    for (int i = 0; i < R->nthr; i++) { memset(shadow(ARENA_BASE + ARENA_PER * i), 0, R->thr[i].arena / 8 + 1); }
    R->gen++; R->nthr = 0; R->now = 1000000000ull; R->rnd = 42; R->explore = true; R->timers = R->spurious = false;
    R->cur_item = it; R->pos = 0; R->ptidx = 0; R->p = R->d = 0; R->steps = R->accesses = 0; R->pruned = R->discarded = R->failed = false;
    R->yield_streak = 0; R->nown = 0; R->rec.n = 0; R->waitseq = 0; R->live_bytes = 0; R->nord = 0;
    R->cur = nullptr;
    Thr *t = new_thread(run_scenario, nullptr);
    t->eh[0] = t->eh[1] = 0;
    R->in_exec = true; R->cur = t;
    mc_swap(&R->main_sp, t->sp);
    R->in_exec = false;
    R->exec_hash = 0; for (int i = 0; i < R->nthr; i++) R->exec_hash += mix2(R->thr[i].h, i);
    if (!R->failed && !R->pruned && !R->discarded && R->pos < it.n) die_internal("divergence: %d of %d choices used (scenario %s)", R->pos, it.n, R->scn->name);
}
static void lk(volatile int *l) { while (__sync_lock_test_and_set(l, 1)) syscall(SYS_sched_yield); }
static void ulk(volatile int *l) { __sync_lock_release(l); }
static void push_item(const Item &it) {
    if (R->nstk == R->cstk) { R->cstk = R->cstk ? R->cstk * 2 : 1024; R->stk = (Item *)realloc((void *)R->stk, R->cstk * sizeof(Item)); if (!R->stk) die_internal("out of memory"); }
    R->stk[R->nstk++] = it;
    __sync_add_and_fetch(&R->sh->outstanding, 1);
}
static u64 real_ms() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return (u64)t.tv_sec * 1000 + t.tv_nsec / 1000000; }

static void flush_stats() {
    Shm *s = R->sh;
    __sync_add_and_fetch(&s->execs, R->l_execs); __sync_add_and_fetch(&s->transitions, R->l_trans); __sync_add_and_fetch(&s->points, R->l_points);
    __sync_add_and_fetch(&s->states, R->l_states); __sync_add_and_fetch(&s->pruned, R->l_pruned);
    R->l_execs = R->l_trans = R->l_points = R->l_states = R->l_pruned = 0;
}
static void on_violation(const char *msg, const Item &rec) {
    Shm *s = R->sh;
    for (int i = 0; i < s->nknown; i++) if (strstr(msg, s->known[i].sig)) { if (!__sync_fetch_and_add(&s->known[i].n, 1)) s->known[i].item = rec; return; }
    lk(&s->lock);
    if (!s->viol.have) { snprintf(s->viol.msg, sizeof s->viol.msg, "%s", msg); snprintf(s->viol.scen, sizeof s->viol.scen, "%s", R->scn->name); s->viol.item = rec; s->viol.have = 1; }
    ulk(&s->lock);
    s->stop = 1;
}
static u64 g_dl() ;
struct WArg { u64 deadline; };
// an execution that makes no instrumented access for seconds of processor time never reaches a scheduling point
static void on_segv(int sig);
static volatile u64 wd_last, wd_same, wd_exec;
static void on_tick(int) {
    if (!R || !R->in_exec || R->in_rt) { wd_same = 0; return; }
    u64 now = R->accesses + R->steps * 1000003ull + wd_exec * 1000000007ull;
    if (now != wd_last) { wd_last = now; wd_same = 0; return; }
    if (++wd_same >= 8) on_segv(SIGVTALRM);
}
static void watchdog() { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_tick; sa.sa_flags = SA_ONSTACK | SA_RESTART; sigaction(SIGVTALRM, &sa, nullptr); struct itimerval it = { { 1, 0 }, { 1, 0 } }; setitimer(ITIMER_VIRTUAL, &it, nullptr); }
static void worker(u64 deadline) {
    watchdog();
    Shm *s = R->sh; R->stk = nullptr; R->nstk = R->cstk = 0; R->record = true; u64 n = 0; u64 chk = 0;
    while (!s->stop && !s->restart) {
        if (!R->nstk) {
            lk(&s->lock);
            int k = 0; u32 take = s->qn / 8 + 1; if (take > 64) take = 64;
            while (s->qn && (u32)k < take) { if (R->nstk == R->cstk) { R->cstk = R->cstk ? R->cstk * 2 : 1024; R->stk = (Item *)realloc((void *)R->stk, R->cstk * sizeof(Item)); } R->stk[R->nstk++] = s->q[--s->qn]; k++; }
            ulk(&s->lock);
            if (!R->nstk) { if (s->outstanding == 0) break; struct timespec ts = { 0, 50000 }; syscall(SYS_nanosleep, &ts, nullptr); continue; }
        }
        Item it = R->stk[--R->nstk]; wd_exec = wd_exec + 1;
        exec_one(it);
        n++; R->l_execs++;
        if (R->pruned) R->l_pruned++;
        if (R->discarded) __sync_add_and_fetch(&s->discards, 1);
        if (R->steps > s->maxpoints) s->maxpoints = R->steps;
        if ((u64)R->nthr > s->maxthr) s->maxthr = R->nthr;
        if (R->failed) on_violation(R->failmsg, R->rec);
        else if (!R->pruned && !R->discarded) {
            if (s->sample_n < 4) { u64 i = __sync_fetch_and_add(&s->sample_n, 1); if (i < 4) { s->samples[i] = R->rec; s->sample_points[i] = R->steps; } }
            if (++chk % 4096 == 1) { // determinism self-check: the same choices give the same trace
                Item rec = R->rec; rec.check = 0; u64 h = R->exec_hash; bool r = R->record; R->record = false; exec_one(rec); R->record = r;
                if (R->failed || R->exec_hash != h) die_internal("nondeterministic execution (scenario %s)", R->scn->name);
            }
        }
        __sync_sub_and_fetch(&s->outstanding, 1);
        if ((n & 15) == 0) { flush_stats(); if (real_ms() > deadline) { s->incomplete |= 1; s->stop = 1; } }
        if (s->dirty && s->execs > s->dirty_limit) { s->restart = 1; break; }     // enough found to restart with the larger point set
        if (R->nstk > 2 && s->qn < 512) {
            lk(&s->lock); u32 give = R->nstk / 2; if (give > 512) give = 512; if (s->qn + give > SHQ_CAP) give = 0;
            for (u32 i = 0; i < give; i++) s->q[s->qn++] = R->stk[i];
            ulk(&s->lock); memmove((void *)R->stk, (void *)(R->stk + give), (R->nstk - give) * sizeof(Item)); R->nstk -= give;
        }
    }
    flush_stats();
}

static void on_segv(int sig) {
    if (R && R->in_exec) {
        const char *w = sig == SIGSEGV ? "crash: segmentation fault" : sig == SIGABRT ? "crash: abort" : sig == SIGFPE ? "crash: arithmetic exception" : sig == SIGVTALRM ? "livelock: endless loop without a scheduling point" : "crash: signal";
        if (R->replaying) { R->in_rt = true; fflush(stdout); printf("\nREPLAY violation: %s\n", w); fflush(stdout); _exit(1); }
        on_violation(w, R->rec); _exit(3);
    }
    signal(sig, SIG_DFL); raise(sig);
}
static void on_terminate() { if (R && R->in_exec) {
        char b[400] = "terminate: uncaught exception or joinable thread destroyed";
        if (auto ep = std::current_exception()) { R->in_rt = true; try { std::rethrow_exception(ep); } catch (const std::exception &e) { snprintf(b, sizeof b, "terminate: uncaught exception: %.200s", e.what()); } catch (...) {} }
        R->in_rt = false;
        fail_exec(b); } abort(); }

static void *xmap(u64 at, size_t n, bool shared = false) {
    void *p = mmap((void *)at, n, PROT_READ | PROT_WRITE, (shared ? MAP_SHARED : MAP_PRIVATE) | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(4); }
    return p;
}
static void rt_early_init() {
    Rt *r = (Rt *)xmap(0x1f0000000000ull, sizeof(Rt));
    xmap(ARENA_BASE, ARENA_PER * ARENA_N);
    xmap(SHADOW_BASE, ARENA_PER * ARENA_N / 8);
    xmap(RSH_BASE, ARENA_PER * ARENA_N / 8 * sizeof(RCell));
    xmap(STACK_BASE, STACK_SZ * MAXT); xmap(RSHS_BASE, STACK_SZ * MAXT / 8 * sizeof(RCell));
    for (int i = 0; i < MAXT; i++) mprotect((void *)(STACK_BASE + STACK_SZ * i), 4096, PROT_NONE);
    r->so = (SyncObj *)xmap(0, sizeof(SyncObj) << 15);
    R = r;
}
__attribute__((constructor(101))) static void rt_ctor() { if (!R) rt_early_init(); }
static int parse_item(const char *f, char *scen, Item *it) {
    FILE *fp = fopen(f, "r"); if (!fp) return -1; char line[4096]; it->n = 0; it->check = 0; it->p = it->d = 0;
    while (fgets(line, sizeof line, fp)) { unsigned a, b; if (sscanf(line, "scenario %120s", scen) == 1) continue; if (sscanf(line, "choice %u %u", &a, &b) == 2) { it->e[it->n].idx = a; it->e[it->n].val = b; it->n++; } }
    fclose(fp); return 0;
}
static void json_str(FILE *f, const char *s) { fputc('"', f); for (; *s; s++) { if (*s == '"' || *s == '\\') fprintf(f, "\\%c", *s); else if ((u8)*s < 32) fprintf(f, " "); else fputc(*s, f); } fputc('"', f); }
static void json_item(FILE *f, const Item &it) { fprintf(f, "["); for (int i = 0; i < it.n; i++) fprintf(f, "%s[%u,%u]", i ? "," : "", it.e[i].idx, it.e[i].val); fprintf(f, "]"); }

struct Res { int complete; int rounds; };

int main(int argc, char **argv) {
    __libc_single_threaded = 0;                    // the threads are ours: libstdc++ must not fall back to plain reference counts
    if (!R) rt_early_init();
    // fixed addresses for the stack-independent parts are ours; warm up the iostream caches outside of executions
    { std::ostringstream o; o << 1 << 1.5 << std::string("x") << true << (void *)8; std::istringstream i("1 2.5 x"); int a; double b; i >> a >> b; std::cout << std::flush; std::cerr << std::flush;
      std::ostringstream o2; o2.setf(std::ios::fixed); o2.precision(2); o2 << 2.25; }
    try { throw std::runtime_error("warm-up"); } catch (const std::exception &) {}
    std::set_terminate(on_terminate);
    const char *scen = nullptr, *out = nullptr, *replay = nullptr; int P = -1, D = -1, W = 8; double tmo = 60; bool list = false; const char *known[32]; int nk = 0; bool race = true, filt = true; u64 steps = 30000;
    for (int i = 1; i < argc; i++) {
        auto nx = [&]() { return argv[++i]; };
        if (!strcmp(argv[i], "--scenario")) scen = nx(); else if (!strcmp(argv[i], "--p")) P = atoi(nx()); else if (!strcmp(argv[i], "--d")) D = atoi(nx());
        else if (!strcmp(argv[i], "--workers")) W = atoi(nx()); else if (!strcmp(argv[i], "--time")) tmo = atof(nx()); else if (!strcmp(argv[i], "--json")) out = nx();
        else if (!strcmp(argv[i], "--replay")) replay = nx(); else if (!strcmp(argv[i], "--list")) list = true; else if (!strcmp(argv[i], "--known")) known[nk++] = nx();
        else if (!strcmp(argv[i], "--norace")) race = false; else if (!strcmp(argv[i], "--nofilter")) filt = false; else if (!strcmp(argv[i], "--steps")) steps = atoll(nx());
        else { fprintf(stderr, "unknown option %s\n", argv[i]); return 4; }
    }
    if (list) { for (auto *s = mc::Scenario::head(); s; s = s->next) printf("%s %d %d %d %d\n", s->name, s->pmax_quick, s->dmax_quick, s->pmax_thorough, s->dmax_thorough); fflush(stdout); _exit(0); }
    static char scbuf[128]; Item rit; memset(&rit, 0, sizeof rit);
    if (replay) { if (parse_item(replay, scbuf, &rit)) { fprintf(stderr, "cannot read %s\n", replay); return 4; } scen = scbuf; }
    const mc::Scenario *sc = nullptr; for (auto *s = mc::Scenario::head(); s; s = s->next) if (scen && !strcmp(s->name, scen)) sc = s;
    if (!sc) { fprintf(stderr, "no scenario %s\n", scen ? scen : "(none)"); return 4; }
    R->scn = sc; R->pmax = P < 0 ? sc->pmax_quick : P; R->dmax = D < 0 ? sc->dmax_quick : D; if (R->dmax > 15) R->dmax = 15; R->max_steps = steps; R->max_acc = 30000000; R->race_detect = race; R->use_shared_filter = filt;
    R->sh = (Shm *)xmap(0, sizeof(Shm), true); R->sharedtab = (u64 *)xmap(0, sizeof(u64) << SHARED_BITS, true); R->frozen = (u64 *)xmap(0, sizeof(u64) << SHARED_BITS);
    R->text0 = (u64)__executable_start; R->text_sz = (u64)etext - R->text0; R->racytab = (u8 *)xmap(0, R->text_sz + 1);
    for (int i = 0; i < nk; i++) snprintf(R->sh->known[i].sig, 256, "%s", known[i]); R->sh->nknown = nk;
    xmap(RSHG_BASE, ((u64)end - (u64)__data_start) / 8 * sizeof(RCell) + 4096);
    // crash handling
    stack_t ss; ss.ss_sp = xmap(0, 65536); ss.ss_size = 65536; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_segv; sa.sa_flags = SA_ONSTACK | SA_NODEFER; for (int s : { SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL }) sigaction(s, &sa, nullptr);
    // snapshot
    R->tf = stdout; fflush(stdout);
    R->data_sz = (u64)end - (u64)__data_start; R->snap_data = (char *)xmap(0, R->data_sz); R->snap_static_off = R->static_off;
    R->snap_static = (char *)xmap(0, R->snap_static_off + 16); memcpy(R->snap_static, (void *)(ARENA_BASE + ARENA_PER * MAXT), R->snap_static_off);
    R->snap_shadow = (u8 *)xmap(0, R->snap_static_off / 8 + 16); memcpy(R->snap_shadow, shadow(ARENA_BASE + ARENA_PER * MAXT), R->snap_static_off / 8 + 1);
    memcpy(R->snap_data, __data_start, R->data_sz);

    u64 t0 = real_ms(), dl = t0 + (u64)(tmo * 1000);
    if (replay) {
        // racy points of the run the file was recorded in
        FILE *fp = fopen(replay, "r"); char line[4096]; unsigned long long a;
        while (fp && fgets(line, sizeof line, fp)) { if (sscanf(line, "racy %llx", &a) == 1 && a - R->text0 < R->text_sz) R->racytab[a - R->text0] = 1; if (sscanf(line, "shared %llx", &a) == 1) shared_add(a); }
        if (fp) fclose(fp);
        memcpy(R->frozen, R->sharedtab, sizeof(u64) << SHARED_BITS);
        R->trace = !getenv("MC_NOTRACE"); R->record = false; R->replaying = true; watchdog(); exec_one(rit);
        fflush(stdout);
        if (R->failed) printf("REPLAY violation: %s\n", R->failmsg); else printf("REPLAY no violation\n");
        fflush(stdout); _exit(R->failed ? 1 : 0);
    }
    int bp = -1, bd = -1, rounds = 0; bool complete_all = true; u64 tot_exec = 0, tot_states = 0, tot_trans = 0, tot_pruned = 0, tot_disc = 0; int rc = 0; u64 last_exec = 0, last_states = 0;
    Shm *S = R->sh;
    // iterate the bound: first few deviations
    for (int p = 0; p <= R->pmax && !rc; p++) {
        int savep = R->pmax, saved = R->dmax;
        int d = p == savep ? saved : (p < saved ? p : saved);
        for (int round = 0;; round++) {
            rounds++;
            R->pmax = p; R->dmax = d;
            // freeze point sets
            for (u64 i = 0; i < S->nracy && i < 8192; i++) { u64 o = S->racy_pc[i] - R->text0; if (o < R->text_sz) R->racytab[o] = 1; }
            memcpy(R->frozen, R->sharedtab, sizeof(u64) << SHARED_BITS);
            S->dirty_limit = p == 0 ? ~0ull >> 1 : 4000ull << (round < 12 ? round : 12);
            S->dirty = 0; S->restart = 0; S->stop = 0; S->incomplete = 0; S->execs = S->pruned = S->transitions = S->points = S->states = S->discards = 0; S->qn = 0; S->outstanding = 1; S->sample_n = 0; S->lock = 0;
            memset((void *)S->outc, 0, sizeof S->outc); S->noutc = 0; for (int i = 0; i < nk; i++) S->known[i].n = 0;
            if (R->visited) munmap(R->visited, sizeof(u64) << VISITED_BITS);
            R->visited = (u64 *)xmap(0, sizeof(u64) << VISITED_BITS, true);
            Item root; memset(&root, 0, sizeof root); S->q[S->qn++] = root;
            int w = W; pid_t pids[64]; fflush(stdout); fflush(stderr);
            for (int i = 0; i < w; i++) { pids[i] = fork(); if (pids[i] == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); worker(dl); _exit(0); } }
            // wait, with a watchdog on single executions that never reach a scheduling point
            int alive = w; bool crashed = false; u64 grace = 0;
            while (alive) { int st; pid_t q = waitpid(-1, &st, WNOHANG);
                if (q > 0) { alive--; if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st))) { crashed = true; S->stop = 1; if (WIFSIGNALED(st) && !S->viol.have && !S->internal_err) { S->internal_err = 1; snprintf(S->ierr, sizeof S->ierr, "worker killed by signal %d", WTERMSIG(st)); } } continue; }
                u64 nw = real_ms(); if (S->stop || nw > dl) { if (!grace) grace = nw; if (nw > grace + 20000) { if (!S->viol.have) { S->internal_err = 1; snprintf(S->ierr, sizeof S->ierr, "an execution does not reach a scheduling point (endless loop) in scenario %s", sc->name); } for (int i = 0; i < w; i++) kill(pids[i], SIGKILL); } }
                struct timespec ts = { 0, 500000 }; syscall(SYS_nanosleep, &ts, nullptr); }
            (void)crashed;
            R->pmax = savep; R->dmax = saved;
            tot_exec += S->execs; tot_states += S->states; tot_trans += S->transitions; tot_pruned += S->pruned; tot_disc += S->discards;
            if (S->internal_err) { fprintf(stderr, "internal error: %s\n", S->ierr); rc = 4; break; }
            if (S->viol.have) { rc = 1; break; }
            if (S->dirty && real_ms() < dl) { if (round > 40) { fprintf(stderr, "point set does not converge\n"); complete_all = false; rc = 2; break; } continue; }
            if (S->incomplete || S->dirty) { complete_all = false; rc = 2; break; }
            bp = p; bd = d; last_exec = S->execs; last_states = S->states; break;
        }
        if (rc) break;
    }
    if (rc == 2) rc = 0;
    double wall = (real_ms() - t0) / 1000.0;
    FILE *f = out ? fopen(out, "w") : stdout;
    fprintf(f, "{\"scenario\":"); json_str(f, sc->name);
    fprintf(f, ",\"complete\":%s,\"bound_requested\":[%d,%d],\"bound_completed\":[%d,%d],\"rounds\":%d,\"executions\":%llu,\"states\":%llu,\"transitions\":%llu,\"pruned\":%llu,\"discarded\":%llu,\"last_bound_executions\":%llu,\"last_bound_states\":%llu,\"max_points\":%llu,\"max_threads\":%llu,\"racy_sites\":%llu,\"shared_objects\":%llu,\"incomplete_flags\":%d,\"wall_s\":%.2f",
        complete_all && rc == 0 ? "true" : "false", R->pmax, R->dmax, bp, bd, rounds, (unsigned long long)tot_exec, (unsigned long long)tot_states, (unsigned long long)tot_trans, (unsigned long long)tot_pruned, (unsigned long long)tot_disc,
        (unsigned long long)last_exec, (unsigned long long)last_states, (unsigned long long)S->maxpoints, (unsigned long long)S->maxthr, (unsigned long long)S->nracy, (unsigned long long)S->nshared, S->incomplete, wall);
    fprintf(f, ",\"distinct_outcomes\":%d,\"outcomes\":[", S->noutc); int k = 0; for (int i = 0; i < 4096 && k < 8; i++) if (S->outc[i].h) { fprintf(f, "%s{\"o\":", k++ ? "," : ""); json_str(f, S->outc[i].s); fprintf(f, ",\"n\":%llu}", (unsigned long long)S->outc[i].n); }
    fprintf(f, "],\"samples\":["); for (u64 i = 0; i < S->sample_n && i < 4; i++) { fprintf(f, "%s{\"points\":%u,\"choices\":", i ? "," : "", S->sample_points[i]); json_item(f, S->samples[i]); fprintf(f, "}"); }
    fprintf(f, "],\"known_hits\":["); for (int i = 0; i < nk; i++) { fprintf(f, "%s{\"sig\":", i ? "," : ""); json_str(f, S->known[i].sig); fprintf(f, ",\"n\":%llu}", (unsigned long long)S->known[i].n); }
    fprintf(f, "]");
    if (S->viol.have) {
        fprintf(f, ",\"violation\":"); json_str(f, S->viol.msg); fprintf(f, ",\"choices\":"); json_item(f, S->viol.item);
        fprintf(f, ",\"racy\":["); for (u64 i = 0, first = 1; i < R->text_sz; i++) if (R->racytab[i]) { fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)(R->text0 + i)); first = 0; }
        fprintf(f, "],\"shared\":["); 
        { bool first = true; for (u32 i = 0; i < (1u << SHARED_BITS); i++) if (R->frozen[i]) { fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)R->frozen[i]); first = false; } }
        fprintf(f, "]");
    }
    if (rc == 4) { fprintf(f, ",\"internal_error\":"); json_str(f, S->ierr); }
    fprintf(f, "}\n"); fflush(f); fflush(stdout);
    _exit(rc);
}
