// Oracle for pipelines with groups: which executions of the leaves of a tree of groups must precede which.
#ifndef VT_TREE_H
#define VT_TREE_H
#include "common.h"
namespace vt {
enum Kind { LEAF, CLUSTER, REGION, COND, MSERIAL, MPARALLEL, ROOT };
struct TN {
    Kind kind; int leaf = -1; long loop = 1; std::vector<TN *> ch; std::vector<unsigned> dep;      // dep: per child, mask of children it depends on (REGION, ROOT)
    std::vector<bool> take;         // per child: executed in an iteration (conditions)
    TN *up = nullptr; int pos = 0; int eng = 0; GElementPtr e = nullptr;
};
struct Tree {
    TN *root = nullptr; std::vector<TN *> leaf, all;
    int rel[MAXN][MAXN]; long m[MAXN][MAXN]; bool (*sep)[MAXN] = nullptr;       // sep: pairs that must not overlap; rel: -1 v before u .. see below; m[u][v]: executions of u per iteration of lca(u,v)
    ~Tree() { for (auto *x : all) delete x; }
    TN *mk(Kind k, std::vector<TN *> ch = {}, long loop = 1) {
        TN *t = new TN; t->kind = k; t->loop = loop; t->ch = ch; t->dep.assign(ch.size(), 0); t->take.assign(ch.size(), true);
        for (size_t i = 0; i < ch.size(); i++) { ch[i]->up = t; ch[i]->pos = i; }
        if (k == LEAF) { t->leaf = leaf.size(); leaf.push_back(t); }
        all.push_back(t); return t;
    }
    static bool takes(TN *g, int i) { return g->take[i]; }
    static bool seq(Kind k) { return k == CLUSTER || k == MSERIAL; }
    // number of executions of t (or of leaf below) per iteration of its ancestor a
    static long mult(TN *t, TN *a) { long r = 1; for (TN *x = t; x != a; x = x->up) { r *= x->loop; if (!takes(x->up, x->pos)) r = 0; } return r; }
    static bool reach(TN *g, int a, int b) { if (g->dep[b] >> a & 1) return true; for (size_t c = 0; c < g->ch.size(); c++) if ((g->dep[b] >> c & 1) && reach(g, a, c)) return true; return false; }
    void prepare() {
        W->n = leaf.size();
        for (auto *u : leaf) for (auto *v : leaf) {
            if (u == v) continue;
            std::vector<TN *> pu, pv; for (TN *x = u; x; x = x->up) pu.push_back(x); for (TN *x = v; x; x = x->up) pv.push_back(x);
            size_t i = pu.size(), j = pv.size(); while (pu[i - 1] == pv[j - 1]) i--, j--;
            TN *l = pu[i]; int a = pu[i - 1]->pos, b = pv[j - 1]->pos;
            int r = 0;      // +1: u before v, -1: v before u
            if (seq(l->kind)) r = a < b ? 1 : -1; else if (reach(l, a, b)) r = 1; else if (reach(l, b, a)) r = -1;
            rel[u->leaf][v->leaf] = r; m[u->leaf][v->leaf] = mult(u, l);
        }
        for (auto *u : leaf) W->loops[u->leaf] = mult(u, root);
        W->checkDeps = false;
    }
    // to be called right after enter(v): the executions of all others so far fit
    __attribute__((no_sanitize("thread"))) void entered(int v) {
        World &w = *W; long k = w.beg[v].peek() - w.base[v] - 1;
        for (int u = 0; u < w.n; u++) {
            if (u == v) continue;
            long mv = m[v][u], mu = m[u][v]; long it = mv > 0 ? k / mv : 0;
            long f = w.fin[u].get() - w.base[u], b = w.beg[u].get() - w.base[u];
            if (sep && b > f) MC_ASSERT(!sep[u][v], "leaves %d and %d execute at once although they were said to be separate", u, v);
            long lo = it * mu, hi = (it + 1) * mu;
            if (rel[u][v] == 1) lo = hi; else if (rel[u][v] == -1) hi = lo;
            MC_ASSERT(f >= lo, "execution %ld of leaf %d started after only %ld of the %ld executions of leaf %d that come before it", k + 1, v, f, lo, u);
            MC_ASSERT(b <= hi, "execution %ld of leaf %d started when leaf %d had already started its execution %ld, which comes later", k + 1, v, u, b);
        }
    }
};
extern Tree *T;
class TNode : public GNode { public: int vid = -1;
    CStatus init() override { W->inits[vid]++; return CStatus(); }
    CStatus destroy() override { W->dests[vid]++; return CStatus(); }
    CBool isMatch() override { return !T || T->leaf[vid]->up->take[T->leaf[vid]->pos]; }
    CStatus run() override {
        enter(vid); if (T && W->act[vid] == OK) T->entered(vid);
        for (int i = 0; i < W->points; i++) mc_point();
        int a = W->act[vid]; leave(vid);
        if (a == ERR) return CStatus(-100 - vid, "err" + std::to_string(vid));
        return CStatus();
    } };
template<class B> class TG : public B { public: TN *t = nullptr; CBool isMatch() override { return t->up->take[t->pos]; } };
class TCluster : public TG<GCluster> {}; class TRegion : public TG<GRegion> {};
class TCond : public TG<GCondition> { public: CIndex choose() override { mc_point(); for (size_t i = 0; i < t->ch.size(); i++) if (t->take[i]) return i; return (CIndex)t->ch.size(); } };
class TMS : public TG<GMultiCondition<GMultiConditionType::SERIAL>> {}; class TMP : public TG<GMultiCondition<GMultiConditionType::PARALLEL>> {};
template<class X> GElementPtr mkGroup(GPipelinePtr p, TN *t, const GElementPtrArr &ch, const GElementPtrSet &d) { X *g = p->createGGroup<X>(ch, d, "g", t->loop); g->t = t; return g; }
// creates the element of t (whose dependencies are d); root level elements are to be registered by the caller
inline GElementPtr create(GPipelinePtr p, TN *t, const GElementPtrSet &d) {
    if (t->kind == LEAF) { auto *n = p->createGNode<TNode>(GNodeInfo(d, "l" + std::to_string(t->leaf), t->loop)); n->vid = t->leaf; t->e = n; return n; }
    GElementPtrArr ch;
    for (size_t i = 0; i < t->ch.size(); i++) {
        GElementPtrSet cd; for (size_t j = 0; j < i; j++) if (t->dep[i] >> j & 1) cd.insert(ch[j]);
        ch.push_back(create(p, t->ch[i], cd));
    }
    GElementPtr g = nullptr;
    switch (t->kind) {
        case CLUSTER: g = mkGroup<TCluster>(p, t, ch, d); break;
        case REGION: g = mkGroup<TRegion>(p, t, ch, d); static_cast<TRegion *>(g)->setGEngineType(engine(t->eng)); break;
        case COND: g = mkGroup<TCond>(p, t, ch, d); break;
        case MSERIAL: g = mkGroup<TMS>(p, t, ch, d); break;
        default: g = mkGroup<TMP>(p, t, ch, d);
    }
    t->e = g; return g;
}
inline void registerTop(GPipelinePtr p, TN *t, const GElementPtrSet &d) {
    auto name = t->kind == LEAF ? "l" + std::to_string(t->leaf) : std::string("g"); CStatus s;
    if (t->kind == LEAF) { GElementPtr e = nullptr; s = p->registerGElement<TNode>(&e, d, name, t->loop); if (e) static_cast<TNode *>(e)->vid = t->leaf; t->e = e; ok(s, "register"); return; }
    GElementPtr e = create(p, t, {});
    switch (t->kind) {
        case CLUSTER: s = p->registerGElement<TCluster>(&e, d, name, t->loop); break;
        case REGION: s = p->registerGElement<TRegion>(&e, d, name, t->loop); break;
        case COND: s = p->registerGElement<TCond>(&e, d, name, t->loop); break;
        case MSERIAL: s = p->registerGElement<TMS>(&e, d, name, t->loop); break;
        default: s = p->registerGElement<TMP>(&e, d, name, t->loop);
    }
    ok(s, "register group");
}
inline void realize(GPipelinePtr p, Tree &t) {
    t.prepare(); T = &t;
    for (size_t i = 0; i < t.root->ch.size(); i++) {
        GElementPtrSet d; for (size_t j = 0; j < i; j++) if (t.root->dep[i] >> j & 1) d.insert(t.root->ch[j]->e);
        registerTop(p, t.root->ch[i], d);
    }
}
}
#define VT_TREE_MAIN VT_MAIN vt::Tree *vt::T = nullptr;
#endif
