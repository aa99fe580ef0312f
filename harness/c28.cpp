// C28: the manager of pipelines hands each pipeline to one user at a time; the factory creates and frees them, from any thread.
#include "common.h"
#include "lin.h"
#include <thread>
#include <deque>
#include <set>
VT_MAIN
using namespace vt;
static mc::Var in_[4], runs_[4], order_; static long log_[16]; static int act_[4]; static int inits_, dests_, alive_; static int initFails, destFails; static bool is_[4];
struct N : GNode { int pl = -1; N() { alive_++; } ~N() override { alive_--; } VT_PLAIN CStatus init() override { inits_++; MC_ASSERT(!is_[pl], "initialised twice"); if (initFails == pl) return CStatus(-40, "init"); is_[pl] = true; return CStatus(); } VT_PLAIN CStatus destroy() override { dests_++; MC_ASSERT(is_[pl], "destroyed twice"); is_[pl] = false; return destFails == pl ? CStatus(-41, "destroy") : CStatus(); }
    CStatus run() override { MC_ASSERT(in_[pl].add(1) == 1, "pipeline %d is run by two users at once", pl); work(); in_[pl].add(-1); if (act_[pl] == ERR) return CStatus(-3, "failed"); if (act_[pl] == THROW) CGRAPH_THROW_EXCEPTION("thrown") return CStatus(); }
    VT_PLAIN void work() { long k = order_.add(1); log_[k - 1] = pl; runs_[pl].add(1); mc_point(); } };
struct Pipes { GPipelineManager m; GPipelinePtr p[4] = {}; int n; bool in = true;
    Pipes(int n, bool add = true, int eng = 0) : n(n) { for (int i = 0; i < 4; i++) { in_[i].v = runs_[i].v = 0; act_[i] = OK; } order_.v = 0; inits_ = dests_ = alive_ = 0; initFails = destFails = -1; for (auto &b : is_) b = false; lin::reset(); for (int i = 0; i < n; i++) { p[i] = GPipelineFactory::create(); p[i]->setUniqueThreadPoolConfig(cfg(1)); p[i]->setGEngineType(engine(eng)); GElementPtr e = nullptr; ok(p[i]->registerGElement<N>(&e), "register"); static_cast<N *>(e)->pl = i; if (add) ok(m.add(p[i]), "add"); } }
    int id(GPipelinePtr q) { for (int i = 0; i < n; i++) if (p[i] == q) return i; return -1; }
    void init() { ok(m.init(), "init"); MC_ASSERT(inits_ == n, "%d initialisations", inits_); }
    void end(bool destroy = true) { if (destroy) { ok(m.destroy(), "destroy"); MC_ASSERT(dests_ == inits_, "%d terminations, %d initialisations", dests_, inits_); } MC_ASSERT(mc_live_threads() == 0, "threads are left"); for (int i = 0; i < n; i++) if (p[i]) ok(GPipelineFactory::remove(p[i]), "remove"); MC_ASSERT(alive_ == 0, "%d elements are not freed", alive_); } };
enum { FETCH, RELEASE, SIZE, FIND, RUN };
// reference: the free pipelines; which of them is handed out is not specified
struct Ref { int n; unsigned free_;
    bool relevant(const lin::Op &) const { return true; }
    bool apply(const lin::Op &o) { switch (o.kind) { case FETCH: if (o.res < 0) return !free_; if (!(free_ >> o.res & 1)) return false; free_ &= ~(1u << o.res); return true;
        case RELEASE: { bool used = !(free_ >> o.a & 1); if (used != (o.res == 0)) return false; free_ |= 1u << o.a; return true; } case SIZE: return o.res == n; case FIND: return o.res == (o.a < n); } return false; }
    std::string show(const lin::Op &o) const { static const char *N[] = { "fetch", "release", "getSize", "find" }; return std::string(N[o.kind]) + "(" + std::to_string(o.a) + ") -> " + std::to_string(o.res); } };
static int fetch(Pipes &q) { int i = lin::begin(FETCH); GPipelinePtr x = q.m.fetch(); int k = x ? q.id(x) : -1; if (x) MC_ASSERT(k >= 0, "fetch() gave something else"); lin::end(i, k); return k; }
static void release(Pipes &q, int k) { int i = lin::begin(RELEASE, k); lin::end(i, q.m.release(q.p[k]).isOK() ? 0 : -1); }
static void size(Pipes &q) { int i = lin::begin(SIZE); lin::end(i, (long)q.m.getSize()); }
static void find(Pipes &q, int k) { int i = lin::begin(FIND, k); lin::end(i, q.m.find(q.p[k])); }
static void check(Pipes &q) { Ref r; r.n = q.n; r.free_ = (1u << q.n) - 1; lin::check(r); }
// every program of T threads that fetch, run, release and look (find() is documented as not thread safe, so it is not among them)
static void programs(int T, int ops, int P) {
    VT_WORLD Pipes q(P); int k[3][3]; for (int t = 0; t < T; t++) for (int i = 0; i < ops; i++) k[t][i] = mc_choose(3, "call"); mc_explore(1);
    auto work = [&](int t) { int have = -1; for (int i = 0; i < ops; i++) switch (k[t][i]) { case 0: if (have < 0) { have = fetch(q); if (have >= 0) { MC_ASSERT(in_[have].add(1) == 1, "pipeline %d is handed to two users", have); in_[have].add(-1); } } else { int h = have; have = -1; release(q, h); } break; case 1: { int f = fetch(q); if (f >= 0) { MC_ASSERT(in_[f].add(1) == 1, "pipeline %d is handed to two users", f); mc_point(); in_[f].add(-1); release(q, f); } break; } case 2: size(q); break; } if (have >= 0) release(q, have); };
    std::vector<std::thread> th; for (int t = 1; t < T; t++) th.emplace_back(work, t); work(0); for (auto &x : th) x.join(); mc_explore(0); check(q); for (int i = 0; i < P; i++) MC_ASSERT(fetch(q) >= 0, "a pipeline is lost"); MC_ASSERT(fetch(q) < 0, "a pipeline appeared twice"); MC_ASSERT(q.m.init().isErr(), "initialised while pipelines are used"); for (int i = 0; i < P; i++) release(q, i); release(q, 0); check(q); q.end(false);
}
MC_SCENARIO(hand_out_2x2_1, 3, 3, 4, 4) { programs(2, 2, 1); }
MC_SCENARIO(hand_out_2x2_2, 2, 2, 3, 3) { programs(2, 2, 2); }
MC_SCENARIO(hand_out_3x1_2, 2, 2, 4, 4) { programs(3, 1, 2); }
MC_SCENARIO(hand_out_2x3_1, -1, -1, 3, 3) { programs(2, 3, 1); }
// run() of the manager from several threads: each takes a free pipeline, and fails only if there is none
static void runners(int T, int P, int each, int eng, bool failing) {
    VT_WORLD Pipes q(P, true, eng); if (failing) for (int i = 0; i < P; i++) act_[i] = mc_choose(3, "what it does"); q.init(); mc::Var good, err, none; mc::Var now; mc_explore(1);
    auto work = [&] { for (int i = 0; i < each; i++) { now.add(1); CStatus s; bool threw = false; try { s = q.m.run(); } catch (const CException &) { threw = true; } now.add(-1); if (threw || s.isErr()) { if (!threw && s.getInfo().find("no free") != std::string::npos) { none.add(1); MC_ASSERT(T > P, "no free pipeline although there are %d for %d users", P, T); } else err.add(1); } else good.add(1); } };
    std::vector<std::thread> th; for (int t = 1; t < T; t++) th.emplace_back(work); work(); for (auto &x : th) x.join(); mc_explore(0);
    long ran = 0, bad_ = 0; for (int i = 0; i < P; i++) { ran += runs_[i].peek(); if (act_[i] != OK) bad_ += runs_[i].peek(); MC_ASSERT(in_[i].peek() == 0, "still running"); } MC_ASSERT(ran - bad_ == good.peek() && bad_ == err.peek() && good.peek() + err.peek() + none.peek() == T * each, "%ld executions (%ld failing) for %ld successes, %ld errors and %ld refusals", ran, bad_, good.peek(), err.peek(), none.peek());
    for (int i = 0; i < P; i++) MC_ASSERT(q.m.find(q.p[i]), "a pipeline is lost"); std::set<GPipelinePtr> all; for (int i = 0; i < P; i++) { auto x = q.m.fetch(); MC_ASSERT(x, "a pipeline is not free after its run"); all.insert(x); } MC_ASSERT((int)all.size() == P && !q.m.fetch(), "a pipeline is there twice"); for (auto x : all) ok(q.m.release(x), "release"); q.end();
}
MC_SCENARIO(run_2_of_1, 2, 2, 3, 3) { runners(2, 1, 2, mc_choose(2, "engine"), false); }
MC_SCENARIO(run_2_of_2, 2, 2, 3, 3) { runners(2, 2, 1, mc_choose(2, "engine"), false); }
MC_SCENARIO(run_3_of_2, 2, 2, 3, 3) { runners(3, 2, 1, 0, false); }
MC_SCENARIO(run_failing, 1, 1, 2, 2) { runners(2, 2, 1, mc_choose(3, "engine"), true); }
MC_SCENARIO(run_failing_1, 1, 1, 2, 2) { runners(1, 1, 2, mc_choose(3, "engine"), true); }
// every sequence of calls by one thread against a reference
static void history(int len) {
    VT_WORLD Pipes q(2, false, 2); std::set<int> known; std::deque<int> used; bool init = false; int lives = 0;
    for (int k = 0; k < len; k++) { int c = mc_choose(10, "call"), i = c < 4 ? c % 2 : 0; switch (c) {
        case 0: case 1: { bool r = q.m.add(q.p[i]).isOK(); if (known.count(i) && !init) { MC_ASSERT(r, "add"); mc_discard(); } MC_ASSERT(r == !init, "add() %s", r ? "accepted" : "refused"); if (r) known.insert(i); break; }
        case 2: case 3: { bool r = q.m.remove(q.p[i]).isOK(); if (!used.empty() && !init) mc_discard(); MC_ASSERT(r == !init, "remove() %s", r ? "accepted" : "refused"); if (r) known.erase(i); break; }
        case 4: { bool r = q.m.init().isOK(), e = !init && used.empty(); MC_ASSERT(r == e, "init() %s", r ? "accepted" : "refused"); if (r) { init = true; lives++; } break; }
        case 5: { bool r = q.m.destroy().isOK(), e = init && used.empty(); MC_ASSERT(r == e, "destroy() %s", r ? "accepted" : "refused"); if (r) init = false; break; }
        case 6: { if (!init) mc_discard(); auto x = q.m.fetch(); MC_ASSERT((x != nullptr) == (known.size() > used.size()), "fetch()"); if (x) { int w = q.id(x); MC_ASSERT(known.count(w), "fetch() gave an unknown one"); for (int u : used) MC_ASSERT(u != w, "fetch() gave a used one"); used.push_back(w); } break; }
        case 7: { int w = used.empty() ? mc_choose(2, "which") : used.front(); bool r = q.m.release(q.p[w]).isOK(); MC_ASSERT(r == !used.empty(), "release() %s", r ? "accepted" : "refused"); if (r) used.pop_front(); break; }
        case 8: { long before = order_.peek(); bool r = q.m.run().isOK(), e = init && known.size() > used.size(); MC_ASSERT(r == e && order_.peek() == before + e, "run() %s", r ? "accepted" : "refused"); if (r) { int w = (int)log_[before]; for (int u : used) MC_ASSERT(u != w, "run() took a used pipeline"); } break; }
        case 9: { bool r = q.m.clear().isOK(); MC_ASSERT(r == !init, "clear() %s", r ? "accepted" : "refused"); if (r) { known.clear(); used.clear(); } break; } }
        MC_ASSERT(q.m.getSize() == known.size(), "getSize() is %ld with %ld pipelines", (long)q.m.getSize(), (long)known.size()); for (int j = 0; j < 2; j++) MC_ASSERT(q.m.find(q.p[j]) == (known.count(j) > 0), "find()"); }
    while (!used.empty()) { ok(q.m.release(q.p[used.front()]), "release"); used.pop_front(); } q.end(init);
}
MC_SCENARIO(history_4, 0, 0, 0, 0) { history(4); }
MC_SCENARIO(history_6, -1, -1, 0, 0) { history(6); }
MC_SCENARIO(refusals, 0, 0, 0, 0) { VT_WORLD Pipes q(1); MC_ASSERT(q.m.add(nullptr).isErr() && q.m.remove(nullptr).isErr() && q.m.release(nullptr).isErr(), "nothing is accepted"); MC_ASSERT(GPipelineFactory::remove(nullptr).isErr(), "nothing is removed"); q.init(); MC_ASSERT(q.m.run().isOK(), "run"); q.end(); }
// the factory from several threads: each pipeline is there until it is removed, once
MC_SCENARIO(factory, 6, 6, 8, 8) { VT_WORLD alive_ = 0; int n = 1 + mc_choose(2, "each"); GPipelinePtr left[2] = {}; mc_explore(1); auto work = [&](int t) { GPipelinePtr p[2]; for (int i = 0; i < n; i++) { p[i] = GPipelineFactory::create(); MC_ASSERT(p[i], "create"); } left[t] = p[0]; for (int i = 1; i < n; i++) ok(GPipelineFactory::remove(p[i]), "remove"); }; std::thread a(work, 1); work(0); a.join(); mc_explore(0); MC_ASSERT(left[0] != left[1], "the same pipeline twice"); for (auto p : left) p->registerGNode<N>()->pl = 0; MC_ASSERT(alive_ == 2, "elements"); if (mc_choose(2, "end")) ok(GPipelineFactory::clear(), "clear"); else for (auto p : left) ok(GPipelineFactory::remove(p), "remove"); MC_ASSERT(alive_ == 0, "%d elements are not freed", alive_); ok(GPipelineFactory::clear(), "clear"); }
// init() of the manager fails if one of its pipelines fails
MC_SCENARIO(failing_init, 0, 0, 0, 0) { VT_WORLD Pipes q(2); initFails = mc_choose(2, "which"); MC_ASSERT(q.m.init().isErr(), "init() succeeded"); MC_ASSERT(q.m.run().isErr() && order_.peek() == 0, "a manager that is not initialised runs"); for (int i = 0; i < 2; i++) { GPipelineFactory::remove(q.p[i]); } MC_ASSERT(mc_live_threads() == 0, "threads are left"); }
// one of the pipelines fails in init() or in destroy(): the manager says so, none is left half way, and it can be used again once the cause is gone
MC_SCENARIO(again, 0, 0, 0, 0) {
    VT_WORLD int P = 1 + mc_choose(3, "pipelines"); Pipes q(P, true, mc_choose(3, "engine")); for (int l = 0; l < 3; l++) { initFails = destFails = -1; if (l < 2) { int w = mc_choose(2 * P + 1, "which fails"); if (w < P) initFails = w; else if (w < 2 * P) destFails = w - P; }
        auto s = q.m.init(); if (initFails >= 0) { MC_ASSERT(s.getCode() == -40, "init() returned %d", s.getCode()); for (int i = 0; i < P; i++) MC_ASSERT(!is_[i], "pipeline %d is still initialised", i); MC_ASSERT(q.m.run().isErr() && q.m.destroy().isErr(), "the manager takes itself for initialised"); continue; }
        MC_ASSERT(s.isOK(), "init() after a failure returned %d %s", s.getCode(), s.getInfo().c_str()); for (int i = 0; i < P; i++) MC_ASSERT(is_[i], "a pipeline is not initialised"); ok(q.m.run(), "run"); s = q.m.destroy(); MC_ASSERT(s.getCode() == (destFails >= 0 ? -41 : 0), "destroy() returned %d", s.getCode()); for (int i = 0; i < P; i++) MC_ASSERT(!is_[i], "pipeline %d was not destroyed", i); MC_ASSERT(mc_live_threads() == 0, "threads are left"); }
    q.end(false);
}
