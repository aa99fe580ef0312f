// C32: CStatus: the first error is kept, a copy is the same, code and text belong together.
#include "common.h"
VT_MAIN
using namespace vt;

// ---- the status as a value: every sequence of operations over a few statuses against a model
struct M { int code = 0; std::string info; };
static const int CODE[] = { internal::STATUS_CRASH, -7, -1, 0, 1 };
static const char *TXT[] = { "", "a text that is longer than the short string buffer" };
static void same(const CStatus &s, const M &m, int op, int k) {
    MC_ASSERT(s.getCode() == m.code, "after operation %d status %d has code %d, expected %d", op, k, s.getCode(), m.code);
    // what a status without an error says as its text is not specified
    if (m.code != 0) MC_ASSERT(s.getInfo() == m.info, "after operation %d status %d with code %d says '%s', expected '%s'", op, k, m.code, s.getInfo().c_str(), m.info.c_str());
    MC_ASSERT(s.isOK() == (m.code == 0) && s.isErr() == (m.code < 0) && s.isNotErr() == (m.code >= 0) && s.isCrash() == (m.code == -996) && (bool)s == (m.code == 0),
              "status with code %d: ok %d, error %d, no error %d, crash %d, bool %d", m.code, s.isOK(), s.isErr(), s.isNotErr(), s.isCrash(), (bool)s);
}
static void algebra(int vars, int depth) {
    mc_explore(0);
    CStatus *s[3]; M m[3];
    for (int i = 0; i < vars; i++) s[i] = new CStatus();
    for (int d = 0; d < depth; d++) {
        int op = mc_choose(10, "operation"), k = mc_choose(vars, "status"), o = op >= 5 ? mc_choose(vars, "other") : k;
        int c = op == 0 || op == 1 ? CODE[mc_choose(5, "code")] : -1;
        std::string t = op < 4 ? std::string(TXT[mc_choose(2, "text")]) + (char)('a' + d) : "";
        CStatus *old = nullptr;
        switch (op) {
        case 0: old = s[k]; s[k] = new CStatus(c, t); m[k] = { c, t }; break;
        case 1: { auto *r = s[k]->setInfo(c, t); MC_ASSERT(r == s[k], "setInfo returned something else"); m[k] = { c, t }; break; }
        case 2: { auto *r = s[k]->setErrorInfo(t); MC_ASSERT(r == s[k], "setErrorInfo returned something else"); m[k] = { -1, t }; break; }
        case 3: old = s[k]; s[k] = new CStatus(t); m[k] = { -1, t }; break;
        case 4: s[k]->reset(); m[k] = M(); break;
        case 5: old = s[k]; s[k] = new CStatus(*s[o]); m[k] = m[o]; break;
        case 6: { auto &r = (*s[k] = *s[o]); MC_ASSERT(&r == s[k], "assignment returned something else"); m[k] = m[o]; break; }
        case 7: { auto &r = (*s[k] += *s[o]); MC_ASSERT(&r == s[k], "+= returned something else"); if (m[k].code >= 0 && m[o].code < 0) m[k] = m[o]; break; }
        case 8: old = s[k]; { CStatus x(*s[o]); s[k] = new CStatus(std::move(x)); } m[k] = m[o]; break;      // moved from a temporary
        case 9: { CStatus x(*s[o]); *s[k] = std::move(x); m[k] = m[o]; break; }
        }
        delete old;
        for (int i = 0; i < vars; i++) same(*s[i], m[i], op, i);
    }
    for (int i = 0; i < vars; i++) delete s[i];
}
MC_SCENARIO(one_status, 0, 0, 0, 0) { algebra(1, 4); }
MC_SCENARIO(two_statuses, 0, 0, 0, 0) { algebra(2, 3); }
MC_SCENARIO(three_statuses, -1, -1, 0, 0) { algebra(3, 3); }
MC_SCENARIO(two_statuses_4, -1, -1, 0, 0) { algebra(2, 4); }
// the first error of a sequence of results is the one that is kept
MC_SCENARIO(accumulate, 0, 0, 0, 0) {
    mc_explore(0); CStatus s; int first = 0; std::string txt; bool warn = false;
    int n = 1 + mc_choose(5, "n");
    for (int i = 0; i < n; i++) {
        int c = CODE[mc_choose(5, "code")]; std::string t = "t" + std::to_string(i);
        s += CStatus(c, t); if (c < 0 && !first) { first = c; txt = t; } warn |= c > 0;
    }
    MC_ASSERT(s.isErr() == (first < 0), "the sum of %d results is %d, the first error is %d", n, s.getCode(), first);
    if (first) MC_ASSERT(s.getCode() == first && s.getInfo() == txt, "the sum of the results is [%d] %s, the first error is [%d] %s", s.getCode(), s.getInfo().c_str(), first, txt.c_str());
}

// ---- the status of elements, as the caller of the pipeline gets it
enum { PH_INIT = 1, PH_RUN = 2, PH_DEST = 4 };
static int phase[MAXN], codeOf[MAXN];
static std::string text(int id, int ph) { return "e" + std::to_string(id) + "p" + std::to_string(ph) + "!"; }
static CStatus result(int id, int ph) { return phase[id] & ph ? CStatus(codeOf[id] * 10 - ph, text(id, ph)) : CStatus(); }
class ENode : public GNode {
public:
    int vid = -1;
    CStatus init() override { return result(vid, PH_INIT); }
    CStatus run() override { enter(vid); mc_point(); leave(vid); return result(vid, PH_RUN); }
    CStatus destroy() override { return result(vid, PH_DEST); }
};
// the status must be that of one of the failing elements in that phase, code and text of the same one
static int whose(const CStatus &s, int n, int ph) {
    for (int i = 0; i < n; i++) if ((phase[i] & ph) && s.getCode() == codeOf[i] * 10 - ph && s.getInfo().find(text(i, ph)) != std::string::npos) return i;
    return -1;
}
static void check(const CStatus &s, int n, int ph, const char *what) {
    bool any = false; for (int i = 0; i < n; i++) any |= !!(phase[i] & ph);
    if (!any) { MC_ASSERT(s.isOK(), "%s() returned [%d] %s although nothing failed in it", what, s.getCode(), s.getInfo().c_str()); return; }
    MC_ASSERT(s.isErr(), "%s() returned %d although an element failed in it", what, s.getCode());
    MC_ASSERT(whose(s, n, ph) >= 0, "%s() returned [%d] %s: not the status of an element that failed in it", what, s.getCode(), s.getInfo().c_str());
}
static void reset() { for (int i = 0; i < MAXN; i++) phase[i] = 0, codeOf[i] = -(i + 1); }
static void cycle(GPipelinePtr p, int n) {
    bool ifail = false; for (int i = 0; i < n; i++) ifail |= !!(phase[i] & PH_INIT);
    mc_explore(ifail); CStatus s = p->init(); mc_explore(0); check(s, n, PH_INIT, "init");
    if (!ifail) {
        for (int r = 0; r < 2; r++) { W->newRun(); W->active.set(1); s = p->run(); W->active.set(0); check(s, n, PH_RUN, "run"); }   // the status of one call is assigned over that of the last
        for (int i = 0; i < n; i++) if (phase[i] & PH_RUN) { codeOf[i] -= 5; break; }                                                // the same phase with another result
        mc_explore(1); W->newRun(); W->active.set(1); s = p->run(); W->active.set(0); mc_explore(0); check(s, n, PH_RUN, "run");
        s = p->destroy(); check(s, n, PH_DEST, "destroy");
    }
    GPipelineFactory::remove(p);
}
static ENode *mk(GElementPtr e, int id) { auto *x = static_cast<ENode *>(e); x->vid = id; return x; }
MC_SCENARIO(pipeline, 1, 1, 2, 2) {     // one or two failing elements in one phase each
    VT_WORLD reset(); W->checkDeps = false;
    unsigned pre[8]; dag(3, mc_choose(dagCount(3), "dag"), pre);
    auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(2)); p->setGEngineType(engine(mc_choose(3, "engine")));
    GElementPtrArr e(3, nullptr); W->n = 3;
    for (int i = 0; i < 3; i++) { GElementPtrSet d; for (int j = 0; j < i; j++) if (pre[i] >> j & 1) d.insert(e[j]); ok(p->registerGElement<ENode>(&e[i], d), "register"); mk(e[i], i); }
    int a = mc_choose(3, "first"), b = mc_choose(3, "second"), ph = 1 << mc_choose(3, "phase");
    phase[a] = phase[b] = ph; cycle(p, 3);
}
template<class G> static void in(int depth) {
    VT_WORLD reset(); W->checkDeps = false; W->checkActive = false;
    auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(2)); p->setGEngineType(engine(mc_choose(3, "engine")));
    GElementPtrArr m; W->n = 3; for (int i = 0; i < 2; i++) { auto *x = p->template createGNode<ENode>(GNodeInfo("m" + std::to_string(i))); mk(x, i); m.push_back(x); }
    GElementPtr g = p->template createGGroup<G>(m, GElementPtrSet{}, "g"), last = nullptr;
    if (depth) g = p->template createGGroup<GCluster>(GElementPtrArr{ g }, GElementPtrSet{}, "outer");
    ok(depth ? p->registerGElement<GCluster>(&g, {}, "top") : p->template registerGElement<G>(&g, {}, "top"), "register"); ok(p->template registerGElement<ENode>(&last, { g }, "after"), "register"); mk(last, 2);
    int a = mc_choose(3, "first"), b = mc_choose(3, "second"), ph = 1 << mc_choose(3, "phase");
    phase[a] = phase[b] = ph; cycle(p, 3);
}
MC_SCENARIO(in_cluster, 1, 1, 2, 2) { in<GCluster>(mc_choose(2, "depth")); }
MC_SCENARIO(in_region, 1, 1, 2, 2) { in<GRegion>(mc_choose(2, "depth")); }
// a positive status is a warning: it stops nothing
MC_SCENARIO(warnings, 1, 1, 2, 2) {
    VT_WORLD reset(); unsigned pre[8]; dag(3, mc_choose(dagCount(3), "dag"), pre);
    auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(2)); p->setGEngineType(engine(mc_choose(3, "engine")));
    build(p, 3, pre); W->act[mc_choose(3, "warns")] = WARN;
    ok(p->init(), "init"); mc_explore(1); auto s = runOnce(p); mc_explore(0);
    MC_ASSERT(s.isNotErr(), "a warning became the error [%d] %s", s.getCode(), s.getInfo().c_str()); allRan();
    ok(p->destroy(), "destroy"); GPipelineFactory::remove(p);
}
