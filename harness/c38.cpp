// C38: a domain node executes the function its preparation names; random vectors and time counters.
#include "common.h"
VT_MAIN
using namespace vt;
enum { PREP, F0 = 1, REFRESH = 9, NF = 10 };
static int log_[2][64], logs[2]; static int pick[2][4], asks[2], failAt[2] = { -1, -1 }, failHow[2]; static unsigned provided[2];
static mc::Var inside_[2];
static CStatus note(int v, int what) { W->points = 0; MC_ASSERT(inside_[v].add(1) == 1, "two functions of node %d at once", v); mc_point(); log_[v][logs[v]++] = what; inside_[v].add(-1); if (failAt[v] == what) { if (failHow[v]) CGRAPH_THROW_EXCEPTION("thr" + std::to_string(what)) return CStatus(-50 - what, "fail" + std::to_string(what)); } return CStatus(); }
// all: provides every function; otherwise none of them
template<bool ALL> class AnnNode : public DAnnNode { public: int vid = 0;
    DAnnFuncType prepareParam() override { (void)note(vid, PREP); return (DAnnFuncType)pick[vid][asks[vid]++]; }
    CStatus refreshParam() override { return note(vid, REFRESH); } };
class FullNode : public AnnNode<true> { public:
    CStatus train() override { return note(vid, 1); } CStatus search() override { return note(vid, 2); } CStatus insert() override { return note(vid, 3); } CStatus update() override { return note(vid, 4); } CStatus remove() override { return note(vid, 5); } CStatus loadModel() override { return note(vid, 6); } CStatus saveModel() override { return note(vid, 7); } CStatus edition() override { return note(vid, 8); } };
class BareNode : public AnnNode<false> {};
class PlainNode : public DAnnNode { public: int vid = 0; DAnnFuncType prepareParam() override { return DAnnFuncType::ANN_SEARCH; } CStatus search() override { return note(vid, 2); } };
static void zero() { for (int v = 0; v < 2; v++) { logs[v] = asks[v] = 0; failAt[v] = -1; failHow[v] = 0; inside_[v].v = 0; } }
static void expect(int v, std::vector<int> w) { MC_ASSERT((int)w.size() == logs[v], "%d functions of node %d were called, expected %d", logs[v], v, (int)w.size()); for (size_t i = 0; i < w.size(); i++) MC_ASSERT(log_[v][i] == w[i], "call %d of node %d is function %d, expected %d", (int)i, v, log_[v][i], w[i]); }
static CStatus run(GPipelinePtr p) { for (int v = 0; v < 2; v++) logs[v] = asks[v] = 0; try { return p->run(); } catch (const CException &e) { return CStatus(internal::STATUS_CRASH, e.what()); } }
template<class N> static GElementPtr place(GPipelinePtr p, int how, CSize loop, int v) {
    GElementPtr e = nullptr; if (!how) { ok(p->registerGElement<N>(&e, {}, "a", loop), "register"); static_cast<N *>(e)->vid = v; return e; }
    auto *n = p->createGNode<N>(GNodeInfo(GElementPtrSet{}, "a", loop)); n->vid = v; e = n; GElementPtr g = nullptr; if (how == 1) { g = p->createGGroup<GCluster>({ e }); ok(p->registerGElement<GCluster>(&g), "register"); } else { g = p->createGGroup<GRegion>({ e }); ok(p->registerGElement<GRegion>(&g), "register"); } return g; }
// every function, in every place, with every failure; the dependent executes exactly if all went well
MC_SCENARIO(functions, 0, 0, 1, 1) {
    VT_WORLD zero(); int f = mc_choose(12, "function") - 1, loop = 1 + mc_choose(2, "loop"), f2 = loop == 2 ? 1 + mc_choose(3, "second function") : 1, what = mc_choose(4, "failure"), kind = mc_choose(3, "node"); auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(3)); p->setGEngineType(engine(mc_choose(3, "engine"))); int how = mc_choose(3, "place");
    pick[0][0] = f; pick[0][1] = f2; GElementPtr e = kind == 0 ? place<FullNode>(p, how, loop, 0) : kind == 1 ? place<BareNode>(p, how, loop, 0) : place<PlainNode>(p, how, loop, 0); GElementPtr n = nullptr; ok(p->registerGElement<VNode>(&n, { e }, "n"), "register"); static_cast<VNode *>(n)->vid = 0; W->n = 1; W->checkDeps = false; W->checkActive = false;
    bool legal = f > 0 && f < 9; if (what == 1) failAt[0] = legal ? f : PREP; if (what == 2) failAt[0] = REFRESH; if (what == 3) { failAt[0] = legal ? f : REFRESH; failHow[0] = 1; } if (kind && what == 1) failAt[0] = kind == 2 ? 2 : REFRESH;
    if (failAt[0] == PREP) failAt[0] = -1;
    auto reference = [&](int &err) { std::vector<int> w; err = 0; for (int l = 0; l < loop && !err; l++) { int g = kind == 2 ? 2 : l ? f2 : f; if (kind != 2) w.push_back(PREP); if (g < 1 || g > 8 || kind == 1) { err = 1; break; } w.push_back(g); if (failAt[0] == g) { err = 2; break; } if (kind == 2) continue; w.push_back(REFRESH); if (failAt[0] == REFRESH) err = 3; } return w; };
    ok(p->init(), "init"); for (int r = 0; r < 2; r++) { int err; auto w = reference(err); long b = W->beg[0].peek(); W->newRun(); mc_explore(1); auto s = run(p); mc_explore(0); MC_ASSERT(s.isErr() == (err != 0), "run() returns %d, expected error %d", s.getCode(), err); expect(0, w); MC_ASSERT(W->beg[0].peek() - b == !err, "the dependent executed %ld times", W->beg[0].peek() - b);
        if (err > 1) { int x = failAt[0]; if (failHow[0]) MC_ASSERT(s.isCrash() && s.getInfo().find("thr" + std::to_string(x)) != std::string::npos, "crash text %s", s.getInfo().c_str()); else MC_ASSERT(s.getCode() == -50 - x && s.getInfo() == "fail" + std::to_string(x), "status [%d] %s", s.getCode(), s.getInfo().c_str()); } failAt[0] = -1; }
    ok(p->destroy(), "destroy"); GPipelineFactory::remove(p);
}
// two domain nodes at once have their own functions and parameters
struct AParam : DAnnParam { long x = 0; CVoid reset(const CStatus &) override { x = 0; } };
class ParamNode : public DAnnNode { public: int vid = 0; DAnnFuncType prepareParam() override { auto *a = getGParam<AParam>("p" + std::to_string(vid)); if (!a) return DAnnFuncType::ANN_PREPARE_ERROR; mc_point(); a->dim_ = 3 + vid; return (DAnnFuncType)pick[vid][0]; }
    CStatus train() override { return act(1); } CStatus search() override { return act(2); } CStatus act(int k) { auto *a = getGParam<AParam>("p" + std::to_string(vid)); MC_ASSERT(a->dim_ == (CSize)(3 + vid) && a->cur_vec_size_ == 0 && a->max_vec_size_ == 0 && !a->normalize_ && a->ann_model_path_.empty(), "parameter of node %d", vid); a->x += k; return note(vid, k); }
    CStatus refreshParam() override { auto *a = getGParam<AParam>("p" + std::to_string(vid)); MC_ASSERT(a->x == pick[vid][0], "refresh of node %d sees %ld", vid, a->x); a->x = 100; return CStatus(); } };
MC_SCENARIO(two_at_once, 1, 1, 2, 2) {
    VT_WORLD zero(); auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(2)); p->setGEngineType(engine(mc_choose(3, "engine"))); GElementPtr e[2] = {}; for (int v = 0; v < 2; v++) { pick[v][0] = mc_choose(3, "function"); ok(p->createGParam<AParam>("p" + std::to_string(v)), "parameter"); ok(p->registerGElement<ParamNode>(&e[v]), "register"); static_cast<ParamNode *>(e[v])->vid = v; }
    ok(p->init(), "init"); for (int r = 0; r < 2; r++) { mc_explore(r == 0); auto s = run(p); mc_explore(0); bool bad = !pick[0][0] || !pick[1][0]; MC_ASSERT(s.isErr() == bad, "run() returns %d", s.getCode()); for (int v = 0; v < 2; v++) if (!bad) expect(v, { pick[v][0] }); else if (!pick[v][0]) expect(v, {}); } ok(p->destroy(), "destroy"); GPipelineFactory::remove(p);
}
// random vectors: dimensions, range, and the same again for a fixed seed, whatever the engine and what was in the vector
template<class T, CInt SEED, class E> static void random_() {
    static const T B[][2] = { { -1, 1 }, { 0, 5 }, { 100000, 999999 }, { 2, 2.5 } }; int b = mc_choose(4, "range"); CSize n = mc_choose(4, "n"), m = mc_choose(4, "m"); std::vector<T> v(mc_choose(3, "before"), 77), v2; ok((URandom<T, SEED, E>::generate(v, n, B[b][0], B[b][1])), "generate"); ok((URandom<T, SEED, E>::generate(v2, n, B[b][0], B[b][1])), "generate"); MC_ASSERT(v.size() == n, "%zu values instead of %zu", v.size(), n); for (T x : v) MC_ASSERT(x >= B[b][0] && x <= B[b][1], "%f is out of range", (double)x); if (SEED) MC_ASSERT(v == v2, "a fixed seed gives different values"); if (SEED && n > 1) MC_ASSERT(v[0] != v[1], "the same value twice");
    std::vector<std::vector<T>> w(mc_choose(2, "rows before"), std::vector<T>(2, 77)), w2; ok((URandom<T, SEED, E>::generate(w, n, m, B[b][0], B[b][1])), "generate"); ok((URandom<T, SEED, E>::generate(w2, n, m, B[b][0], B[b][1])), "generate"); MC_ASSERT(w.size() == n, "%zu rows instead of %zu", w.size(), n); for (auto &r : w) { MC_ASSERT(r.size() == m, "a row of %zu values instead of %zu", r.size(), m); for (T x : r) MC_ASSERT(x >= B[b][0] && x <= B[b][1], "%f is out of range", (double)x); } if (SEED) MC_ASSERT(w == w2, "a fixed seed gives different rows"); if (SEED && n > 1 && m) MC_ASSERT(w[0] != w[1], "two equal rows"); if (SEED && m && n) for (size_t i = 0; i < std::min(n, m); i++) MC_ASSERT(w[0][i] == v[i], "row and vector of one seed differ"); }
MC_SCENARIO(random_vectors, 0, 0, 0, 0) { switch (mc_choose(5, "engine")) { case 0: random_<float, 0, CGRAPH_RANDOM_MT19937>(); break; case 1: random_<float, 7, CGRAPH_RANDOM_MT19937>(); break; case 2: random_<double, 7, CGRAPH_RANDOM_MINSTD_RAND>(); break; case 3: random_<double, -3, CGRAPH_RANDOM_RANLUX24_BASE>(); break; default: random_<double, 0, CGRAPH_RANDOM_MINSTD_RAND>(); } }
MC_SCENARIO(sessions, 0, 0, 0, 0) { int n = mc_choose(5, "parts"); std::string key = mc_choose(2, "key") ? "node" : "", s = URandom<>::generateSession(key, n); size_t at = 0; for (int i = 0; i < n; i++) { for (int k = 0; k < 6; k++) MC_ASSERT(at < s.size() && isdigit(s[at++]), "session %s", s.c_str()); MC_ASSERT(at < s.size() && s[at++] == '-', "session %s", s.c_str()); } MC_ASSERT(s.substr(at) == key, "session %s", s.c_str()); if (n >= 3) MC_ASSERT(s != URandom<>::generateSession(key, n), "two equal sessions"); }
// a time counter tells the time since its creation or last reset
MC_SCENARIO(counters, 0, 0, 0, 0) { std::vector<UTimeCounter *> c; long t0[3] = {}; for (int i = 0; i < 2; i++) { c.push_back(i ? new UTimeCounter("c", 1000000) : new UTimeCounter("d", 1000000)); t0[i] = mc_now_ms(); CGRAPH_SLEEP_MILLISECOND(5) } for (int k = 0; k < 4; k++) { int i = mc_choose(2, "counter"); long d = mc_now_ms() - t0[i]; switch (mc_choose(3, "call")) { case 0: MC_ASSERT((long)c[i]->getSpan() == d, "span %ld instead of %ld", (long)c[i]->getSpan(), d); break; case 1: MC_ASSERT((long)c[i]->reset() == d, "reset() tells another time than %ld", d); t0[i] = mc_now_ms(); break; default: CGRAPH_SLEEP_MILLISECOND(7) } } for (int i = 0; i < 2; i++) MC_ASSERT((long)c[i]->getSpan() == mc_now_ms() - t0[i], "span"); for (auto *x : c) delete x; }
