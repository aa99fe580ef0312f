// C17: parameters shared by the parts of a pipeline.
#include "common.h"
#include <functional>
#include <map>
#include <thread>
#include <chrono>
VT_MAIN
using namespace vt;
static int made, dead, setups, resets, lastReset; static bool setupFails;
struct P : public GParam { int v = 0; int magic = 11; mc::Var u; P() { made++; magic = 11; } ~P() override { dead++; magic = 0; }
    CStatus setup() override { setups++; return setupFails ? CStatus(-31, "setup") : CStatus(); } CVoid reset(const CStatus &s) override { resets++; lastReset = s.getCode(); } };
struct Q : public GParam { int magic = 12; Q() { made++; } ~Q() override { dead++; magic = 0; } };
struct PP : public P {};
struct Box { std::function<void(class Fn *, int)> f; };
static Box *B;
class Fn : public GNode { public: int id = 0; CStatus init() override { B->f(this, id + 100); return CStatus(); } CStatus run() override { B->f(this, id); return CStatus(); }
    template<class T> CStatus mk(const std::string &k, bool bt = false) { return createGParam<T>(k, bt); } template<class T> T *gt(const std::string &k) { return getGParam<T>(k); } template<class T> T *ne(const std::string &k) { return getGParamWithNoEmpty<T>(k); }
    CStatus rm(const std::string &k) { return removeGParam(k); } std::vector<std::string> ks() { return getGParamKeys(); } std::vector<std::string> ck() { return getConcernedGParamKeys(); }
    CStatus nt(const std::string &k, GEventType t) { return notify(k, t); } template<class T> T *ep(const std::string &k) { return getEParam<T>(k); } };
static GPipelinePtr pipe(int n, const unsigned *pre, GElementPtr *e, int eng = 0, int threads = 2, CSize loop = 1) {
    auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(threads)); p->setGEngineType(engine(eng)); made = dead = setups = resets = 0; lastReset = 77; setupFails = false;
    for (int i = 0; i < n; i++) { GElementPtrSet d; for (int j = 0; j < i; j++) if (pre && pre[i] >> j & 1) d.insert(e[j]); ok(p->registerGElement<Fn>(&e[i], d, "n" + std::to_string(i), loop), "register"); static_cast<Fn *>(e[i])->id = i; }
    return p;
}
static void end(GPipelinePtr p) { ok(p->destroy(), "destroy"); GPipelineFactory::remove(p); MC_ASSERT(made == dead, "%d parameters of %d were not freed with the pipeline", made - dead, made); }
static CStatus mkT(Fn *n, int t, const std::string &k) { return t ? n->mk<Q>(k) : n->mk<P>(k); }
static GParamPtr gtT(Fn *n, int t, const std::string &k) { return t ? (GParamPtr)n->gt<Q>(k) : (GParamPtr)n->gt<P>(k); }
// elements create parameters at the same time
static void creators(int n, int pre) {
    VT_WORLD mc::Var got[3], won[3]; int t[3], k[3]; for (int i = 0; i < n; i++) { t[i] = mc_choose(2, "type"); k[i] = mc_choose(2, "key"); }
    GElementPtr e[3]; Box b; B = &b; auto p = pipe(n, nullptr, e); auto key = [&](int i) { return std::string(1, 'a' + i); };
    b.f = [&](Fn *m, int i) { if (i == 100) for (int x = 0; x < pre; x++) ok(m->mk<P>("p" + std::to_string(x)), "create"); if (i >= 100) return;
        CStatus s = mkT(m, t[i], key(k[i])); auto *g = gtT(m, t[i], key(k[i])); MC_ASSERT(s.isOK() == (g != nullptr), "create returned %d, get %s", s.getCode(), g ? "a parameter" : "none"); if (g) { MC_ASSERT(g->getKey() == key(k[i]), "key is %s", g->getKey().c_str()); won[i].set(1); got[i].set((long)g); }
        MC_ASSERT(!gtT(m, 1 - t[i], key(k[i])) || !g, "a parameter is of two types"); if (pre) MC_ASSERT(m->gt<P>("p0") && m->gt<P>("p0")->magic == 11, "existing parameter not found"); };
    ok(p->init(), "init"); mc_explore(1); CStatus s = runOnce(p); mc_explore(0); ok(s, "run");
    std::map<int, long> who; int keys = 0; for (int i = 0; i < n; i++) { bool any = false, seen = false; for (int j = 0; j < n; j++) if (k[j] == k[i]) any |= won[j].peek() && t[j] == t[i], seen |= j < i; keys += !seen;
        MC_ASSERT(won[i].peek() == any, "creators of one key and type disagree"); if (won[i].peek()) { if (who.count(k[i])) MC_ASSERT(who[k[i]] == got[i].peek(), "two parameters for one key"); who[k[i]] = got[i].peek(); } }
    MC_ASSERT((int)who.size() == keys, "a key that was created has no parameter"); MC_ASSERT(made - dead == keys + pre, "%d parameters exist for %d keys", made - dead, keys + pre); end(p);
}
MC_SCENARIO(create_create, 2, 2, 3, 3) { creators(2, 0); }
MC_SCENARIO(create_three, 1, 1, 2, 2) { creators(3, 0); }
// lookups while another element adds a parameter to 1, 20 or 29 existing ones
MC_SCENARIO(create_get, 1, 1, 2, 2) {
    VT_WORLD static const int pres[] = { 1, 13, 22, 29 }; int pre = pres[mc_choose(4, "existing")], what = mc_choose(3, "what"); GElementPtr e[2]; Box b; B = &b; auto p = pipe(2, nullptr, e);
    b.f = [&](Fn *m, int i) { if (i == 100) for (int x = 0; x < pre; x++) ok(m->mk<P>("p" + std::to_string(x)), "create"); if (i >= 100) return;
        if (i == 0) { if (what == 0) ok(m->mk<Q>("z"), "create"); else if (what == 1) ok(m->rm("p" + std::to_string(pre - 1)), "remove"); else MC_ASSERT((int)m->ks().size() == pre, "keys"); return; }
        for (int x : { 0, pre / 2 }) if (what != 1 || x != pre - 1) { auto *g = m->gt<P>("p" + std::to_string(x)); MC_ASSERT(g && g->magic == 11, "existing parameter p%d not found while another is added or removed", x); } MC_ASSERT(!m->gt<P>("nokey"), "found a parameter that was never created"); };
    ok(p->init(), "init"); mc_explore(1); CStatus s = runOnce(p); mc_explore(0); ok(s, "run"); end(p);
}
// every sequence of operations, against a map
MC_SCENARIO(operations, 0, 0, 0, 0) {
    VT_WORLD GElementPtr e[1]; Box b; B = &b; auto p = pipe(1, nullptr, e, 0, 1); int ops[4]; for (auto &o : ops) o = mc_choose(11, "op");
    std::map<std::string, int> ref; std::map<std::string, GParamPtr> ptr;
    b.f = [&](Fn *m, int i) { if (i >= 100) return; std::map<std::string, bool> touched;
        for (int o : ops) { std::string k(1, 'a' + o % 2); int t = o / 2 % 2; 
            if (o < 4) { CStatus s = mkT(m, t, k); MC_ASSERT(s.isOK() == (!ref.count(k) || ref[k] == t), "create returned %d", s.getCode()); if (!ref.count(k)) ref[k] = t, ptr[k] = nullptr; }
            else if (o < 8) { auto *g = gtT(m, t, k); bool w = ref.count(k) && ref[k] == t; MC_ASSERT((g != nullptr) == w, "get of type %d returned %s", t, g ? "a parameter" : "none"); if (g) { MC_ASSERT(!ptr[k] || ptr[k] == g, "another object"); ptr[k] = g; MC_ASSERT(g->getKey() == k, "key"); touched[k] = true; } bool thr = false; try { t ? (void)m->ne<Q>(k) : (void)m->ne<P>(k); } catch (const CException &) { thr = true; } MC_ASSERT(thr != w, "getGParamWithNoEmpty"); MC_ASSERT(!m->gt<PP>(k), "a parameter was returned as a type derived from its own"); }
            else if (o < 10) { CStatus s = m->rm(k); MC_ASSERT(s.isOK() == (bool)ref.count(k), "remove returned %d", s.getCode()); ref.erase(k); ptr.erase(k); }
            else for (auto &c : m->ck()) MC_ASSERT(touched.count(c), "parameter %s was not used by this element", c.c_str());
            auto ks = m->ks(); MC_ASSERT(ks.size() == ref.size(), "%zu keys, expected %zu", ks.size(), ref.size()); for (auto &x : ks) MC_ASSERT(ref.count(x), "key %s", x.c_str()); MC_ASSERT(made - dead == (int)ref.size(), "%d parameters exist, expected %zu", made - dead, ref.size()); }
        for (auto &c : touched) if (ref.count(c.first)) { auto ck = m->ck(); MC_ASSERT(std::find(ck.begin(), ck.end(), c.first) != ck.end(), "used parameter %s is not listed", c.first.c_str()); } };
    ok(p->init(), "init"); ok(runOnce(p), "run"); end(p);
}
// one object for all parts of the pipeline; setup and reset once per run; values persist
class Ev : public GEvent { public: CVoid trigger(GEventParamPtr) override { auto *x = getGParam<P>("s"); MC_ASSERT(x && x->magic == 11, "event does not find the parameter"); x->v++; } };
class As : public GAspect { public: CStatus beginRun() override { auto *x = getGParam<P>("s"); MC_ASSERT(x, "aspect does not find the parameter"); x->v++; return CStatus(); } };
class Grp : public GCluster { public: CIndex dummy = 0; };
MC_SCENARIO(shared, 0, 0, 1, 1) {
    VT_WORLD int bad = mc_choose(4, "failure"), eng = mc_choose(3, "engine"), grp = mc_choose(3, "group"), runs = 3, at = mc_choose(runs, "run"); GPipelinePtr p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(2)); p->setGEngineType(engine(eng)); made = dead = setups = resets = 0; setupFails = false; int r = -1, execs = 0; Box b; B = &b;
    GElementPtr a = nullptr, g = nullptr, c = nullptr; ok(p->registerGElement<Fn>(&a, {}, "n0", 2), "r"); static_cast<Fn *>(a)->id = 0;
    auto *m1 = p->createGNode<Fn>(GNodeInfo(std::string("n1"))); m1->id = 1; if (grp) { g = p->createGGroup<GRegion>({ m1 }); if (grp == 2) { GElementPtr in = p->createGGroup<GCluster>({ g }); g = p->createGGroup<GRegion>({ in }); } ok(p->registerGElement<GRegion>(&g, { a }, "g"), "r"); } else { ok(p->registerGElement<Fn>(&g, { a }, "n1"), "r"); static_cast<Fn *>(g)->id = 1; }
    ok(p->registerGElement<Fn>(&c, { g }, "n2"), "r"); static_cast<Fn *>(c)->id = 2; c->addGAspect<As>(); ok(p->addGEvent<Ev>("ev") ? CStatus() : CStatus("ev"), "event"); P *first = nullptr; int val = 0;
    b.f = [&](Fn *m, int i) { if (i == 100) { ok(m->mk<P>("s"), "create"); return; } if (i > 100) { auto *x = m->gt<P>("s"); MC_ASSERT(x, "not found in init"); return; }
        execs++; auto *x = m->gt<P>("s"); MC_ASSERT(x && (!first || first == x), "element %d has another parameter", i); first = x; MC_ASSERT(setups == r + 1 && resets == r, "in run %d: %d setups, %d resets", r, setups, resets); x->v++; 
        if (i == 0) ok(m->nt("ev", GEventType::SYNC), "notify"); if (i == 1 && r == at && bad == 2) CGRAPH_THROW_EXCEPTION("thr") };
    ok(p->init(), "init"); MC_ASSERT(setups == 0 && resets == 0, "setup or reset outside a run");
    for (r = 0; r < runs; r++) { int e0 = execs; setupFails = bad == 1 && r == at; mc_explore(1); CStatus s = runOnce(p); mc_explore(0); 
        MC_ASSERT(setups == r + 1, "%d setups after %d runs", setups, r + 1); if (setupFails) { MC_ASSERT(s.getCode() == -31 && execs == e0, "setup failed, run returned %d after %d executions", s.getCode(), execs - e0); resets = r + 1; setupFails = false; continue; }
        MC_ASSERT(resets == r + 1, "%d resets after %d runs", resets, r + 1); bool th = bad == 2 && r == at; MC_ASSERT(s.isErr() == th, "run returned %d", s.getCode()); MC_ASSERT(lastReset == s.getCode(), "reset was given %d, run() returned %d", lastReset, s.getCode());
        val += th ? 5 : 7; MC_ASSERT(first && first->v - (th && 0) == val, "value is %d, expected %d", first->v, val); }
    ok(p->destroy(), "destroy"); GPipelineFactory::remove(p); MC_ASSERT(made == dead, "parameters left");
}
// several parameters, some of whose setups fail: each is set up and reset once per run, no failure is lost
struct S : public GParam { int i = 0, su = 0, re = 0, st = 77; CStatus setup() override { su++; return made >> i & 1 ? CStatus(-40 - i, "s" + std::to_string(i)) : CStatus(); } CVoid reset(const CStatus &s) override { re++; st = s.getCode(); } };
MC_SCENARIO(several_setups, 0, 0, 0, 0) {
    VT_WORLD int n = 1 + mc_choose(4, "parameters"), bad = mc_choose(1 << n, "failing"), eng = mc_choose(3, "engine"); GElementPtr e[2]; unsigned pre[] = { 0, 1 }; Box b; B = &b; auto p = pipe(2, pre, e, eng, 1); S *x[4]; int execs = 0; b.f = [&](Fn *, int i) { if (i < 100) execs++; };
    for (int i = 0; i < n; i++) { std::string k = "k" + std::to_string(i); ok(p->createGParam<S>(k), "create"); x[i] = p->getGParam<S>(k); x[i]->i = i; }
    ok(p->init(), "init"); for (int r = 0; r < 3; r++) { made = r == 1 ? bad : 0; int e0 = execs, su[4], re[4]; for (int i = 0; i < n; i++) su[i] = x[i]->su, re[i] = x[i]->re; CStatus s = runOnce(p); for (int i = 0; i < n; i++) { int u = x[i]->su - su[i], v = x[i]->re - re[i]; MC_ASSERT(made ? u <= 1 && v <= 1 : u == 1 && v == 1 && x[i]->st == 0, "parameter %d: %d setups, %d resets (with %d) in run %d", i, u, v, x[i]->st, r); }
        if (made) { bool code = false; for (int i = 0; i < n; i++) code |= (bad >> i & 1) && s.getCode() == -40 - i; MC_ASSERT(s.isErr() && code, "the setups %x fail, run() returned %d", bad, s.getCode()); MC_ASSERT(execs == e0, "%d elements executed although a setup failed", execs - e0); } else { ok(s, "run"); MC_ASSERT(execs == e0 + 2, "%d executions", execs - e0); } }
    made = dead = 0; ok(p->destroy(), "destroy"); GPipelineFactory::remove(p);
}
// two elements change or list the parameters at the same time
MC_SCENARIO(change_change, 1, 1, 2, 2) {
    VT_WORLD static const int pres[] = { 2, 13 }; int pre = pres[mc_choose(2, "existing")], op[2]; for (auto &o : op) o = mc_choose(4, "op"); if (op[0] > op[1]) mc_discard(); GElementPtr e[2]; Box b; B = &b; auto p = pipe(2, nullptr, e); mc::Var good[2]; auto K = [](int x) { return "p" + std::to_string(x); };
    b.f = [&](Fn *m, int i) { if (i == 100) for (int x = 0; x < pre; x++) ok(m->mk<P>(K(x)), "create"); if (i >= 100) return;
        if (op[i] == 0) ok(m->mk<P>(std::string(1, 'y' + i)), "create"); else if (op[i] < 3) { CStatus s = m->rm(K(op[i] == 1 ? 0 : 1)); good[i].set(s.isOK()); } else { size_t n = m->ks().size(); int o = op[1 - i]; MC_ASSERT((int)n == pre || (int)n == pre + (o == 0 ? 1 : o < 3 ? -1 : 0), "%zu keys are listed", n); } };
    ok(p->init(), "init"); mc_explore(1); CStatus s = runOnce(p); mc_explore(0); ok(s, "run"); int want = pre; for (int i = 0; i < 2; i++) want += op[i] == 0 ? 1 : 0; bool gone[2] = { false, false }; for (int k : { 1, 2 }) { int tries = 0, hits = 0; for (int i = 0; i < 2; i++) if (op[i] == k) tries++, hits += good[i].peek(); MC_ASSERT(hits == (tries > 0), "%d of %d removals of one parameter succeeded", hits, tries); if (hits) want--, gone[k - 1] = true; }
    MC_ASSERT(made - dead == want, "%d parameters exist, expected %d", made - dead, want); b.f = [&](Fn *m, int i) { if (i) return; MC_ASSERT((int)m->ks().size() == want, "%zu keys, expected %d", m->ks().size(), want); for (int x = 0; x < pre; x++) { auto *g = m->gt<P>(K(x)); MC_ASSERT(x < 2 && gone[x] ? !g : g && g->magic == 11, "parameter %d after the run", x); } for (int k = 0; k < 2; k++) MC_ASSERT((m->gt<P>(std::string(1, 'y' + k)) != nullptr) == (op[k] == 0), "created parameter"); }; ok(runOnce(p), "run"); end(p);
}
// a parameter type and one derived from it: what was created or accepted is found, as the one object it is
MC_SCENARIO(derived_types, 0, 0, 0, 0) {
    VT_WORLD GElementPtr e[1]; Box b; B = &b; auto p = pipe(1, nullptr, e, 0, 1); int first = mc_choose(2, "first"), where = mc_choose(2, "where");
    auto go = [&](std::function<CStatus(int)> mk, std::function<GParamPtr(int)> gt) { ok(mk(first), "create"); auto *x = gt(first); MC_ASSERT(x, "not found"); CStatus s = mk(1 - first); auto *y = gt(1 - first); MC_ASSERT(s.isErr() || y == x, "created again as a %s type with success, but %s", first ? "base" : "derived", y ? "another object is found" : "not found as that"); MC_ASSERT(gt(first) == x && made - dead == 1, "%d parameters for one key", made - dead); };
    b.f = [&](Fn *m, int i) { if (i == 0 && where) go([&](int t) { return t ? m->mk<PP>("k") : m->mk<P>("k"); }, [&](int t) { return t ? (GParamPtr)m->gt<PP>("k") : m->gt<P>("k"); }); };
    if (!where) go([&](int t) { return t ? p->createGParam<PP>("k") : p->createGParam<P>("k"); }, [&](int t) { return t ? (GParamPtr)p->getGParam<PP>("k") : p->getGParam<P>("k"); });
    ok(p->init(), "init"); ok(runOnce(p), "run"); end(p);
}
// reset comes last: after late elements, the rest of a some-group and asynchronous events, once for each parameter, with the status of the run
static mc::Var pend; static int lateCode;
struct R : public GParam { int re = 0, code = 77; CVoid reset(const CStatus &s) override { re++; code = s.getCode(); MC_ASSERT(pend.get() == 0, "a parameter is reset while %ld elements or events of the run have not finished", pend.peek()); } };
class PEv : public GEvent { public: CVoid trigger(GEventParamPtr) override { mc_point(); pend.add(-1); } };
class Slow : public GNode { public: int kind = 0; CStatus run() override { std::this_thread::sleep_for(std::chrono::milliseconds(300)); if (kind >= 2) { pend.add(1); ok(notify("ev", GEventType::ASYNC), "notify"); } pend.add(-1); return kind == 4 ? CStatus() : lateCode ? CStatus(lateCode, "late") : CStatus(); } };
class Quick : public GNode { public: int kind = 0; CStatus run() override { if (kind == 4) { pend.add(1); ok(notify("ev", GEventType::ASYNC), "notify"); return lateCode ? CStatus(lateCode, "quick") : CStatus(); } return CStatus(); } };
struct SomeOne : public GSome { CSize getWaitNum() override { return 1; } };
MC_SCENARIO(reset_last, 1, 1, 2, 2) {
    VT_WORLD int kind = mc_choose(5, "what ends last"), n = 1 + mc_choose(2, "parameters"), eng = mc_choose(3, "engine"); lateCode = mc_choose(2, "fails") ? -55 : 0; auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(3)); p->setGEngineType(engine(eng)); R *x[2]; for (int i = 0; i < n; i++) { std::string k = "k" + std::to_string(i); ok(p->createGParam<R>(k), "create"); x[i] = p->getGParam<R>(k); } p->addGEvent<PEv>("ev"); pend.v = 0;
    // 0 an element beyond its limit, 1 the rest of a some-group, 2 and 3 the same, triggering an event, 4 an event only
    GElementPtr a = nullptr, c = nullptr; bool some = kind == 1 || kind == 3; if (some) { auto *q = p->createGNode<Quick>(GNodeInfo("q")); auto *l = p->createGNode<Slow>(GNodeInfo("l")); l->kind = kind; a = p->createGGroup<SomeOne>({ q, l }); ok(p->registerGGroup(&a, {}, "some"), "register"); } else if (kind < 4) { ok(p->registerGElement<Slow>(&a, {}, "late"), "register"); static_cast<Slow *>(a)->kind = kind; a->setTimeout(100, GElementTimeoutStrategy::HOLD_BY_PIPELINE); }
    if (kind == 4) { ok(p->registerGElement<Quick>(&a, {}, "q"), "register"); static_cast<Quick *>(a)->kind = 4; } ok(p->registerGElement<Quick>(&c, { a }, "c"), "register");
    ok(p->init(), "init"); for (int r = 0; r < 2; r++) { pend.set(kind < 4); mc_explore(r == 0); CStatus s = runOnce(p); mc_explore(0); MC_ASSERT(pend.get() == 0, "run() returned while %ld elements or events of the run have not finished", pend.peek()); MC_ASSERT(s.getCode() == lateCode, "run() returned %d, expected %d", s.getCode(), lateCode); for (int i = 0; i < n; i++) MC_ASSERT(x[i]->re == r + 1 && x[i]->code == s.getCode(), "run %d returned %d: parameter %d was reset %d times, the last time with %d", r, s.getCode(), i, x[i]->re, x[i]->code); lateCode = 0; }
    ok(p->destroy(), "destroy"); GPipelineFactory::remove(p);
}
// lock: mutual exclusion
MC_SCENARIO(lock, 2, 2, 3, 3) {
    VT_WORLD int n = 2, how[2]; for (auto &h : how) h = mc_choose(3, "how"); GElementPtr e[2]; Box b; B = &b; auto p = pipe(n, nullptr, e, 0, 2, 2); mc::Var in, done;
    b.f = [&](Fn *m, int i) { if (i == 100) ok(m->mk<P>("s"), "create"); if (i >= 100) return; auto *x = m->gt<P>("s"); auto crit = [&] { MC_ASSERT(in.add(1) == 1, "two elements hold the lock of a parameter"); int v = x->v; mc_point(); x->v = v + 1; in.add(-1); done.add(1); };
        if (how[i] == 0) { x->lock(); crit(); x->unlock(); } else if (how[i] == 1) { CGRAPH_PARAM_WRITE_CODE_BLOCK(x); crit(); } else if (x->tryLock()) { crit(); x->unlock(); } };
    ok(p->init(), "init"); mc_explore(1); CStatus s = runOnce(p); mc_explore(0); ok(s, "run"); b.f = [&](Fn *m, int) { MC_ASSERT(m->gt<P>("s")->v == done.peek(), "an update under the lock was lost"); MC_ASSERT(m->gt<P>("s")->tryLock(), "lock still held"); m->gt<P>("s")->unlock(); }; ok(runOnce(p), "run"); MC_ASSERT((how[0] == 2 || how[1] == 2) || done.peek() == 4, "lock"); end(p);
}
// traces: who used a parameter, once each, in order of the first use
MC_SCENARIO(backtrace, 1, 1, 2, 2) {
    VT_WORLD int shape = mc_choose(dagCount(3), "dag"); unsigned pre[3]; dag(3, shape, pre); unsigned users = mc_choose(8, "users"); GElementPtr e[3]; Box b; B = &b; auto p = pipe(3, pre, e); std::vector<std::string> t;
    b.f = [&](Fn *m, int i) { if (i == 100) { ok(m->mk<P>("s", true), "create"); ok(m->mk<P>("o"), "create"); } if (i >= 100) return; bool thr = false; auto *o = m->gt<P>("o"); try { o->getBacktrace(); } catch (const CException &) { thr = true; } MC_ASSERT(thr && o->addBacktrace("x").isErr(), "trace of a parameter without"); if (users >> i & 1) { m->gt<P>("s"); m->gt<P>("s"); m->gt<P>("nokey"); m->gt<Q>("s"); } };
    ok(p->init(), "init"); for (int r = 0; r < 2; r++) { mc_explore(r == 0); ok(runOnce(p), "run"); } mc_explore(0);
    P *x = nullptr; b.f = [&](Fn *m, int i) { if (i == 0) { x = m->gt<P>("s"); t = x->getBacktrace(); x->cleanBacktrace(); MC_ASSERT(x->getBacktrace().empty(), "trace not cleaned"); x->addBacktrace("q"); x->addBacktrace("q"); MC_ASSERT(x->getBacktrace() == std::vector<std::string>{ "q" }, "trace"); } }; ok(runOnce(p), "run");
    if (!(users & 1)) { MC_ASSERT(!t.empty() && t.back() == "n0", "the last user is not in the trace"); t.pop_back(); } unsigned seen = 0; for (auto &n : t) { int i = n[1] - '0'; MC_ASSERT(n.size() == 2 && i >= 0 && i < 3 && (users >> i & 1) && !(seen >> i & 1), "trace has %s", n.c_str()); MC_ASSERT(((closure(3, pre, i) & users) & ~seen) == 0, "trace lists element %d before one that used the parameter earlier", i); seen |= 1u << i; } MC_ASSERT(seen == users, "users %u, trace %u", users, seen); end(p);
}
// events triggered at the same time that use parameters
static bool listing;
class Ev2 : public GEvent { public: CVoid trigger(GEventParamPtr) override { for (int i : { 0, 1 }) { auto *x = getGParam<P>("p" + std::to_string(i)); MC_ASSERT(x && x->magic == 11, "event does not find parameter %d", i); x->u.add(1); } if (listing) { auto ck = getConcernedGParamKeys(); std::sort(ck.begin(), ck.end()); MC_ASSERT(ck == (std::vector<std::string>{ "p0", "p1" }), "the event used 2 parameters, %zu are listed", ck.size()); } } };
MC_SCENARIO(event_users, 1, 1, 2, 2) {
    VT_WORLD int ty[2]; for (auto &t : ty) t = mc_choose(2, "type"); GElementPtr e[2]; Box b; B = &b; auto p = pipe(2, nullptr, e); p->addGEvent<Ev2>("ev"); P *x[2] = {};
    b.f = [&](Fn *m, int i) { if (i == 100) for (int k = 0; k < 2; k++) { std::string n = "p" + std::to_string(k); ok(m->mk<P>(n), "create"); x[k] = m->gt<P>(n); } if (i < 100) ok(m->nt("ev", ty[i] ? GEventType::ASYNC : GEventType::SYNC), "notify"); };
    ok(p->init(), "init"); mc_explore(1); CStatus s = runOnce(p); mc_explore(0); ok(s, "run"); for (auto *q : x) MC_ASSERT(q->u.peek() == 2, "a trigger was lost"); listing = true; ty[0] = ty[1] = 0; ok(runOnce(p), "run"); listing = false; end(p);
}
// parameters of one element
struct EP : public GElementParam { int v = 0; std::string s; EP() { made++; } ~EP() override { dead++; } CVoid clone(GPassedParam *p) override { auto *q = dynamic_cast<EP *>(p); v = q->v; s = q->s; } };
struct EQ : public GElementParam { int v = 0; EQ() { made++; } ~EQ() override { dead++; } CVoid clone(GPassedParam *p) override { v = dynamic_cast<EQ *>(p)->v; } };
MC_SCENARIO(own, 0, 0, 0, 0) {
    VT_WORLD GElementPtr e[2]; Box b; B = &b; auto p = pipe(2, nullptr, e); std::map<std::string, std::pair<int, int>> ref[2]; int steps = 4; 
    for (int i = 0; i < steps; i++) { int o = mc_choose(9, "op"); if (o == 8) continue; int el = o % 2; std::string k(1, 'a' + o / 2 % 2); int t = o / 4; if (t) { EQ q; q.v = i; e[el]->addEParam<EQ>(k, &q); } else { EP q; q.v = i; q.s = "s" + std::to_string(i); e[el]->addEParam<EP>(k, &q); q.s = "changed"; q.v = -1; } ref[el][k] = { t, i }; }
    b.f = [&](Fn *m, int i) { i %= 100; for (std::string k : { "a", "b" }) { auto it = ref[i].find(k); auto *x = m->ep<EP>(k); auto *y = m->ep<EQ>(k); bool h = it != ref[i].end(); MC_ASSERT((x != nullptr) == (h && !it->second.first) && (y != nullptr) == (h && it->second.first), "element %d, parameter %s: wrong type or presence", i, k.c_str()); if (x) MC_ASSERT(x->v == it->second.second && x->s == "s" + std::to_string(x->v), "element %d has value %d", i, x->v); if (y) MC_ASSERT(y->v == it->second.second, "element %d has value %d", i, y->v); } };
    ok(p->init(), "init"); bool thr = false; try { EP q; e[0]->addEParam<EP>("a", &q); } catch (const CException &) { thr = true; } MC_ASSERT(thr, "parameter added while initialised"); ok(runOnce(p), "run"); ok(runOnce(p), "run"); end(p);
}
// the keys an element says it used are those it obtained since it was initialised
MC_SCENARIO(concerned, 0, 0, 0, 0) {
    VT_WORLD GElementPtr e[2]; Box b; B = &b; unsigned pre[2] = { 0, 1 }; auto p = pipe(2, pre, e, 0, 1); ok(p->createGParam<P>("a"), "param"); ok(p->createGParam<P>("b"), "param"); ok(p->createGParam<P>("c"), "param"); unsigned use[2][3], inInit[2]; for (int l = 0; l < 2; l++) { inInit[l] = mc_choose(4, "used in init"); for (int r = 0; r < 2; r++) use[l][r] = mc_choose(4, "used in a run"); } unsigned seen = 0; int l = 0, r = 0;
    b.f = [&](Fn *m, int i) { if (i % 100 == 1) { MC_ASSERT(m->ck().empty(), "an element that used nothing says it did"); return; } unsigned u = i >= 100 ? inInit[l] : use[l][r]; for (int k = 0; k < 3; k++) if (u >> k & 1) { MC_ASSERT(m->gt<P>(std::string(1, 'a' + k)), "get"); MC_ASSERT(!m->gt<Q>(std::string(1, 'a' + (k + 1) % 3)) && !m->gt<P>("x"), "found"); } seen |= u; auto ks = m->ck(); unsigned got = 0; for (auto &k : ks) got |= 1u << (k[0] - 'a'); MC_ASSERT(got == seen && (int)ks.size() == __builtin_popcount(seen), "used %x, the element says %x", seen, got); };
    for (l = 0; l < 2; l++) { seen = 0; ok(p->init(), "init"); for (r = 0; r < 2; r++) ok(runOnce(p), "run"); if (!l) ok(p->destroy(), "destroy"); } end(p);
}
