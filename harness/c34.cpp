// C34: dump() draws the graph that executes; perf() executes it once, measures it and leaves it as it was.
#include "tree.h"
#include <map>
#include <sstream>
VT_TREE_MAIN
using namespace vt;

// ---- the picture, parsed
struct Node { std::string label, in; };
struct Edge { std::string a, b, label; bool red; bool operator<(const Edge &o) const { return std::tie(a, b, label) < std::tie(o.a, o.b, o.label); } };
struct Pic { std::map<std::string, Node> node; std::map<std::string, std::pair<std::string, std::string>> cluster; std::vector<Edge> edge; };   // cluster: label, parent
static Pic parse(const std::string &s) {
    Pic r; std::vector<std::string> in; size_t i = s.find("digraph CGraph {"); MC_ASSERT(i != s.npos, "no digraph"); i += 16;
    auto id = [&] { size_t j = i; MC_ASSERT(s[i] == 'p', "unexpected text in the picture: %.20s", s.c_str() + i); j++; while (j < s.size() && isxdigit((unsigned char)s[j] == 'x' ? '0' : s[j])) j++; auto x = s.substr(i, j - i); i = j; return x; };
    for (;;) {
        while (i < s.size() && (isspace((unsigned char)s[i]) || s[i] == ';')) i++;
        MC_ASSERT(i < s.size(), "the picture does not end");
        if (s[i] == '}') { i++; if (in.empty()) break; in.pop_back(); continue; }
        if (!s.compare(i, 18, "subgraph cluster_p")) { i += 17; auto x = id(); size_t l = s.find("label=\"", i), e = s.find("\";", l + 7); MC_ASSERT(!r.cluster.count(x), "a group is drawn twice"); r.cluster[x] = { s.substr(l + 7, e - l - 7), in.empty() ? "" : in.back() }; in.push_back(x); i = e + 1; continue; }
        if (s[i] != 'p') { i = s.find('\n', i); if (i == s.npos) i = s.size(); continue; }     // attributes of the graph
        auto x = id();
        if (!s.compare(i, 5, " -> p")) { i += 4; Edge e; e.a = x; e.b = id(); size_t n = s.find(";\n", i); auto t = s.substr(i, n - i); e.red = t.find("color=red") != t.npos; size_t l = t.find("label=\""); if (l != t.npos) e.label = t.substr(l + 7, t.find('"', l + 7) - l - 7); r.edge.push_back(e); i = n; }
        else if (!s.compare(i, 8, "[label=\"")) { size_t e = s.find('"', i + 8); MC_ASSERT(!r.node.count(x), "an element is drawn twice"); r.node[x] = { s.substr(i + 8, e - i - 8), in.empty() ? "" : in.back() }; i = s.find('\n', e); }
        else i = s.find('\n', i);       // shape of a group
    }
    return r;
}
static std::string idOf(GElementPtr e) { if (!e) return ""; std::ostringstream o; o << 'p' << e; return o.str(); }
static std::string nameOf(TN *t) { return t->kind == LEAF ? "l" + std::to_string(t->leaf) : "g"; }
static void picture(const std::string &txt, Tree &t, bool perf) {
    Pic p = parse(txt); size_t nodes = 0, groups = 0; std::vector<Edge> want;
    for (auto *x : t.all) {
        if (x->kind == ROOT) continue;
        auto i = idOf(x->e), up = idOf(x->up->e); nodes++;
        MC_ASSERT(p.node.count(i), "%s is not in the picture", nameOf(x).c_str()); auto &n = p.node[i];
        MC_ASSERT(n.in == up && n.label.substr(0, n.label.find('\n')) == nameOf(x), "%s is drawn as '%s' in another place", nameOf(x).c_str(), n.label.c_str());
        if (!perf) MC_ASSERT(n.label == nameOf(x), "%s is drawn as '%s'", nameOf(x).c_str(), n.label.c_str());
        if (x->kind != LEAF) { groups++; MC_ASSERT(p.cluster.count(i) && p.cluster[i].second == up, "a group is not drawn in its place"); auto l = p.cluster[i].first; MC_ASSERT(!l.compare(0, 1, "g") && (l.find("(loop=" + std::to_string(x->loop) + ")") != l.npos) == (x->loop > 1), "a group with loop %ld is labelled %s", x->loop, l.c_str()); }
        else if (x->loop > 1) want.push_back({ i, i, std::to_string(x->loop), false });
        for (size_t j = 0; j < x->up->ch.size(); j++) if (x->up->dep[x->pos] >> j & 1) want.push_back({ idOf(x->up->ch[j]->e), i, "", false });
        if (x->up->kind == CLUSTER && x->pos) want.push_back({ idOf(x->up->ch[x->pos - 1]->e), i, "", false });
        if (x->up->kind == COND || x->up->kind == MSERIAL || x->up->kind == MPARALLEL) want.push_back({ up, i, std::to_string(x->pos), false });
    }
    MC_ASSERT(p.node.size() == nodes && p.cluster.size() == groups, "the picture has %zu elements and %zu groups, expected %zu and %zu", p.node.size(), p.cluster.size(), nodes, groups);
    std::sort(want.begin(), want.end()); std::sort(p.edge.begin(), p.edge.end());
    MC_ASSERT(want.size() == p.edge.size(), "the picture has %zu arrows, expected %zu", p.edge.size(), want.size());
    for (size_t i = 0; i < want.size(); i++) MC_ASSERT(!(want[i] < p.edge[i]) && !(p.edge[i] < want[i]), "the picture has an arrow that is no dependency");
}
// ---- the elements: those of tree.h with a duration and failures in each phase
static long dur[MAXN]; static int failIn; static int failHow, failWho;     // 1 init 2 run 4 destroy
static long aspected[MAXN];
class PNode : public TNode { public:
    CStatus misbehave(int ph) { if (failIn == ph && failWho == vid) { if (failHow) CGRAPH_THROW_EXCEPTION("thr") return CStatus(-9, "err"); } return CStatus(); }
    CStatus init() override { W->inits[vid]++; return misbehave(1); }
    CStatus destroy() override { W->dests[vid]++; return misbehave(4); }
    CStatus run() override { if (dur[vid]) { enter(vid); std::this_thread::sleep_for(std::chrono::milliseconds(dur[vid])); leave(vid); } else { auto s = TNode::run(); (void)s; } return misbehave(2); } };
class PAspect : public GAspect { public: CVoid finishRun(const CStatus &) override { if (getName()[0] == 'l') aspected[atoi(getName().c_str() + 1)]++; } };
static GElementPtr mk(GPipelinePtr p, TN *t, const GElementPtrSet &d) {
    if (t->kind == LEAF) { auto *n = p->createGNode<PNode>(GNodeInfo(d, nameOf(t), t->loop)); n->vid = t->leaf; return t->e = n; }
    GElementPtrArr ch;
    for (size_t i = 0; i < t->ch.size(); i++) { GElementPtrSet cd; for (size_t j = 0; j < i; j++) if (t->dep[i] >> j & 1) cd.insert(ch[j]); ch.push_back(mk(p, t->ch[i], cd)); }
    switch (t->kind) { case CLUSTER: return t->e = mkGroup<TCluster>(p, t, ch, d); case REGION: { auto *g = mkGroup<TRegion>(p, t, ch, d); static_cast<TRegion *>(g)->setGEngineType(engine(t->eng)); return t->e = g; }
        case COND: return t->e = mkGroup<TCond>(p, t, ch, d); case MSERIAL: return t->e = mkGroup<TMS>(p, t, ch, d); default: return t->e = mkGroup<TMP>(p, t, ch, d); }
}
static GPipelinePtr make(Tree &t, bool asp, int threads = 2) {
    for (auto &x : dur) x = 0; for (auto &x : aspected) x = 0; failIn = 0;
    auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(threads)); t.prepare(); T = &t;
    for (size_t i = 0; i < t.root->ch.size(); i++) {
        TN *x = t.root->ch[i]; GElementPtrSet d; for (size_t j = 0; j < i; j++) if (t.root->dep[i] >> j & 1) d.insert(t.root->ch[j]->e);
        GElementPtr e = x->kind == LEAF ? nullptr : mk(p, x, {}); CStatus s;
        switch (x->kind) { case LEAF: s = p->registerGElement<PNode>(&e, d, nameOf(x), x->loop); static_cast<PNode *>(e)->vid = x->leaf; break; case CLUSTER: s = p->registerGElement<TCluster>(&e, d, "g", x->loop); break; case REGION: s = p->registerGElement<TRegion>(&e, d, "g", x->loop); break; case COND: s = p->registerGElement<TCond>(&e, d, "g", x->loop); break; case MSERIAL: s = p->registerGElement<TMS>(&e, d, "g", x->loop); break; default: s = p->registerGElement<TMP>(&e, d, "g", x->loop); }
        ok(s, "register"); x->e = e;
    }
    if (asp) p->addGAspect<PAspect>();
    return p;
}
static std::string draw(GPipelinePtr p) {
    std::ostringstream o; o.precision(9); o.setf(std::ios::scientific, std::ios::floatfield); auto f = o.flags(), c = std::cout.flags();
    ok(p->dump(o), "dump"); MC_ASSERT(o.flags() == f && o.precision() == 9 && std::cout.flags() == c, "dump() changed the format of a stream");
    return o.str();
}
static std::string perf(GPipelinePtr p, CStatus &s) {
    std::ostringstream o; auto f = o.flags(); W->newRun(); W->active.set(1); mc_explore(1);
    try { s = p->perf(o); } catch (const CException &e) { s = CStatus(internal::STATUS_CRASH, e.what()); }
    mc_explore(0); W->active.set(0); MC_ASSERT(o.flags() == f, "perf() changed the format of the stream"); return o.str();
}
static void plain(GPipelinePtr p, bool asp) {      // process() as without perf()
    for (auto &x : aspected) x = 0; W->newRun(); W->active.set(1); CStatus s = p->process(); W->active.set(0); ok(s, "process"); allRan();
    for (int i = 0; i < W->n; i++) MC_ASSERT(!asp || aspected[i] == W->loops[i], "the user's aspect of %d was called %ld times", i, aspected[i]);
}
static double num(const std::string &l, const char *what) { size_t i = l.find(what); return i == l.npos ? -1 : atof(l.c_str() + i + strlen(what)); }
static void measured(const std::string &txt, Tree &t, bool asp) {
    Pic p = parse(txt);
    for (auto *x : t.leaf) {
        auto &l = p.node[idOf(x->e)].label; long n = W->loops[x->leaf], d = dur[x->leaf];
        if (!n) { MC_ASSERT(l.find('\n') == l.npos, "an element that did not execute is labelled %s", l.c_str()); continue; }
        double st = num(l, "[start "), fi = num(l, "finish "), per = num(l, "per_cost "), tot = num(l, "total_cost ");
        // beginRun and finishRun of the aspect frame each iteration; executions of held elements are not part of the scenario
        MC_ASSERT(per == d, "%s took %.2f ms per execution, expected %ld: %s", nameOf(x).c_str(), per, d, l.c_str());
        if (n > 1) MC_ASSERT(tot == (double)(d * n), "%s took %.2f ms in total, expected %ld", nameOf(x).c_str(), tot, d * n); else MC_ASSERT(tot == -1, "a total of one execution");
        MC_ASSERT(st >= 0 && fi - st >= d * n, "%s started at %.2f and finished at %.2f", nameOf(x).c_str(), st, fi);
    }
    if (asp) for (int i = 0; i < W->n; i++) MC_ASSERT(aspected[i] == W->loops[i], "the user's aspect of %d was called %ld times", i, aspected[i]);
}
static Tree *flat(int n, int k, Tree &t) { std::vector<TN *> c; for (int i = 0; i < n; i++) c.push_back(t.mk(LEAF)); t.root = t.mk(ROOT, c); unsigned pre[8]; dag(n, k, pre); for (int i = 0; i < n; i++) t.root->dep[i] = pre[i]; return &t; }
static TN *pickGroup(Tree &t, Kind k, std::vector<TN *> ch, long loop) { auto *g = t.mk(k, ch, loop); if (k == REGION) { if (ch.size() > 1 && mc_choose(2, "dependency")) g->dep[1] = 1; g->eng = mc_choose(3, "engine of the region"); } if (k == COND) for (size_t i = 1; i < ch.size(); i++) g->take[i] = false; return g; }
static void all(Tree &t, bool asp, int rounds = 2, int threads = 2) {
    auto p = make(t, asp, threads); p->setGEngineType(engine(mc_choose(3, "engine")));
    auto before = draw(p); picture(before, t, false); long live = 0;
    for (int r = 0; r < rounds; r++) {
        for (auto &x : aspected) x = 0; { CStatus s; auto txt = perf(p, s); ok(s, "perf"); allRan(); picture(txt, t, true); measured(txt, t, asp); }
        for (int i = 0; i < W->n; i++) MC_ASSERT(W->inits[i] == r + 1 && W->dests[i] == r + 1, "leaf %d was initialised %ld and destroyed %ld times", i, W->inits[i], W->dests[i]);
        MC_ASSERT(draw(p) == before, "perf() changed the pipeline");
        if (r && rounds > 1) MC_ASSERT(mc_live_bytes() == live, "perf() left %ld bytes behind", (long)mc_live_bytes() - live);
        live = mc_live_bytes();
    }
    plain(p, asp); GPipelineFactory::remove(p); T = nullptr;
}
// ---- pictures
MC_SCENARIO(dump_flat, 0, 0, 0, 0) { VT_WORLD int n = 1 + mc_choose(5, "n"); Tree t; flat(n, mc_choose(dagCount(n), "dag"), t); for (auto *x : t.leaf) if (n < 5) x->loop = 1 + mc_choose(2, "loop"); auto p = make(t, false); auto s = draw(p); picture(s, t, false); MC_ASSERT(draw(p) == s, "two pictures differ"); GPipelineFactory::remove(p); T = nullptr; }
MC_SCENARIO(dump_nested, 0, 0, 0, 0) {
    VT_WORLD static const Kind K[] = { CLUSTER, REGION, COND, MSERIAL, MPARALLEL }; Tree t;
    Kind a = K[mc_choose(5, "outer")], b = K[mc_choose(5, "inner")]; long la = 1 + mc_choose(2, "loop"), lb = 1 + mc_choose(2, "inner loop");
    auto *in = pickGroup(t, b, { t.mk(LEAF), t.mk(LEAF) }, lb); auto *out = pickGroup(t, a, mc_choose(2, "place") ? std::vector<TN *>{ in, t.mk(LEAF) } : std::vector<TN *>{ t.mk(LEAF), in }, la);
    t.root = t.mk(ROOT, { t.mk(LEAF), out, t.mk(LEAF) }); t.root->dep[1] = mc_choose(2, "dependency"); t.root->dep[2] = mc_choose(4, "dependency");
    auto p = make(t, false); picture(draw(p), t, false); GPipelineFactory::remove(p); T = nullptr;
}
// during an execution the picture is the same
MC_SCENARIO(dump_during_run, 1, 1, 2, 2) {
    VT_WORLD Tree t; if (mc_choose(2, "groups")) { auto *g = pickGroup(t, mc_choose(2, "kind") ? REGION : CLUSTER, { t.mk(LEAF), t.mk(LEAF) }, 1); t.root = t.mk(ROOT, { g, t.mk(LEAF) }); t.root->dep[1] = 1; } else flat(3, mc_choose(dagCount(3), "dag"), t);
    auto p = make(t, false); p->setGEngineType(engine(mc_choose(3, "engine"))); auto b = draw(p); ok(p->init(), "init"); mc_explore(1); std::string d; std::thread th([&] { d = draw(p); }); auto s = runOnce(p); th.join(); mc_explore(0); ok(s, "run"); allRan(); MC_ASSERT(d == b, "the picture drawn during a run is another one"); ok(p->destroy(), "destroy"); GPipelineFactory::remove(p); T = nullptr;
}
// ---- measurements
MC_SCENARIO(perf_flat, 1, 1, 2, 2) { VT_WORLD Tree t; flat(3, mc_choose(dagCount(3), "dag"), t); t.leaf[mc_choose(3, "loops")]->loop = 2; all(t, mc_choose(2, "aspect"), 1); }
MC_SCENARIO(perf_again, 0, 0, 1, 1) { VT_WORLD Tree t; flat(3, mc_choose(dagCount(3), "dag"), t); t.leaf[mc_choose(3, "loops")]->loop = 2; all(t, mc_choose(2, "aspect"), 3); }
MC_SCENARIO(perf_nested, 0, 0, 1, 1) {
    VT_WORLD static const Kind K[] = { CLUSTER, REGION, COND, MSERIAL, MPARALLEL }; Tree t;
    Kind a = K[mc_choose(5, "outer")], b = K[mc_choose(5, "inner")]; long la = 1 + mc_choose(2, "loop"), lb = 1 + mc_choose(2, "inner loop");
    auto *in = pickGroup(t, b, { t.mk(LEAF), t.mk(LEAF) }, lb); auto *out = pickGroup(t, a, { in, t.mk(LEAF) }, la);
    t.root = t.mk(ROOT, { t.mk(LEAF), out }); t.root->dep[1] = mc_choose(2, "dependency"); all(t, mc_choose(2, "aspect"), 3, 4);    // 4 threads: a parallel group waits within a thread of the pool
}
// durations: every assignment, the times in the picture and the longest path
MC_SCENARIO(longest_path, 0, 0, 0, 0) {
    VT_WORLD int n = 2 + mc_choose(3, "n"); mc_timers(1); Tree t; flat(n, mc_choose(dagCount(n), "dag"), t); auto p = make(t, false); p->setGEngineType(engine(n == 4 ? 0 : mc_choose(3, "engine")));
    for (int i = 0; i < n; i++) dur[i] = 1 + mc_choose(n == 4 ? 2 : 3, "duration");
    if (n < 4) { int l = mc_choose(n + 1, "loop"); if (l < n) { auto *e = t.leaf[l]->e; e->setLoop(2); t.leaf[l]->loop = 2; t.prepare(); } }
    CStatus s; auto txt = perf(p, s); ok(s, "perf"); allRan(); picture(txt, t, true); measured(txt, t, false);
    Pic pic = parse(txt); std::map<std::string, int> no; for (auto *x : t.leaf) no[idOf(x->e)] = x->leaf; unsigned red[8] = {}; for (auto &e : pic.edge) if (e.red && e.a != e.b) red[no[e.b]] |= 1u << no[e.a];
    // some path from a source to a sink of maximal duration marks exactly the arrows between its elements
    long best = 0; std::vector<unsigned> paths; std::vector<long> cost; auto &dep = t.root->dep;
    std::function<void(int, unsigned, long)> go = [&](int v, unsigned m, long c) { m |= 1u << v; c += dur[v] * t.leaf[v]->loop; bool sink = true; for (int w = 0; w < n; w++) if (dep[w] >> v & 1) { sink = false; go(w, m, c); } if (sink) { paths.push_back(m); cost.push_back(c); best = std::max(best, c); } };
    for (int v = 0; v < n; v++) if (!dep[v]) go(v, 0, 0);
    bool found = false; for (size_t i = 0; i < paths.size() && !found; i++) { if (cost[i] != best) continue; bool same = true; for (int v = 0; v < n; v++) { unsigned want = paths[i] >> v & 1 ? dep[v] & paths[i] : 0; same &= want == red[v]; } found = same; }
    MC_ASSERT(found, "the marked arrows are not those of a longest path"); GPipelineFactory::remove(p); T = nullptr;
}
// ---- failures while measuring
static void failing(Tree &t, int schedules) {
    bool asp = mc_choose(2, "aspect"); auto p = make(t, asp); p->setGEngineType(engine(mc_choose(3, "engine"))); auto before = draw(p); T = nullptr; W->checkActive = true;
    { CStatus s; perf(p, s); ok(s, "perf"); } long live = mc_live_bytes(); (void)schedules;
    failIn = 1 << mc_choose(3, "phase"); failHow = mc_choose(2, "throws"); failWho = mc_choose(W->n, "who");
    { CStatus s; perf(p, s); MC_ASSERT(failHow ? s.isCrash() : s.getCode() == -9, "perf() of a pipeline that fails returned [%d] %s", s.getCode(), s.getInfo().c_str()); }
    int in = failIn; failIn = 0; MC_ASSERT(draw(p) == before, "perf() that failed changed the pipeline");
    if (in != 1) MC_ASSERT(mc_live_bytes() == live, "perf() that failed left %ld bytes behind", (long)mc_live_bytes() - live);
    T = &t; plain(p, asp); { CStatus s; auto txt = perf(p, s); ok(s, "perf"); picture(txt, t, true); } MC_ASSERT(draw(p) == before, "perf() changed the pipeline");
    MC_ASSERT(mc_live_bytes() == live, "%ld bytes are left", (long)mc_live_bytes() - live); GPipelineFactory::remove(p); T = nullptr; MC_ASSERT(mc_live_threads() == 0, "threads are left");
}
MC_SCENARIO(failing_flat, 0, 0, 1, 1) { VT_WORLD Tree t; flat(3, mc_choose(dagCount(3), "dag"), t); failing(t, 0); }
MC_SCENARIO(failing_nested, 0, 0, 1, 1) { VT_WORLD static const Kind K[] = { CLUSTER, REGION, MSERIAL, MPARALLEL }; Tree t; auto *g = pickGroup(t, K[mc_choose(4, "kind")], { t.mk(LEAF), t.mk(LEAF) }, 1); t.root = t.mk(ROOT, { t.mk(LEAF), g }); t.root->dep[1] = mc_choose(2, "dependency"); failing(t, 0); }
// perf() of an initialised pipeline is refused without effect
MC_SCENARIO(initialised, 0, 0, 0, 0) { VT_WORLD Tree t; flat(2, mc_choose(2, "dag"), t); auto p = make(t, true); auto before = draw(p); ok(p->init(), "init"); bool refused = false; std::ostringstream o; try { refused = p->perf(o).isErr(); } catch (const CException &) { refused = true; } MC_ASSERT(refused && W->beg[0].peek() == 0 && o.str().empty(), "perf() of an initialised pipeline"); MC_ASSERT(draw(p) == before, "the refused perf() changed the pipeline"); ok(runOnce(p), "run"); allRan(); ok(p->destroy(), "destroy"); plain(p, true); GPipelineFactory::remove(p); T = nullptr; }
// what an element is called: the name given when it is registered, else the one it was created with or was given, else its session
static bool isA(GElementPtr e, int k) { return k == 0 ? e->isGNode() : k == 1 ? e->isGGroup() : e->isGAdaptor(); }
MC_SCENARIO(names, 0, 0, 0, 0) {
    VT_WORLD T = nullptr; W->checkActive = false; auto p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(1)); p->setGEngineType(engine(mc_choose(3, "engine"))); int k = mc_choose(6, "kind"); std::string c = mc_choose(2, "named when created") ? "c" : "", s = mc_choose(2, "named in between") ? "s" : "", r = mc_choose(2, "named when registered") ? "r" : "", l = mc_choose(2, "named afterwards") ? "l" : ""; GElementPtr e = nullptr, m = nullptr;
    auto leaf = [&](const std::string &n) { auto *x = p->createGNode<TNode>(GNodeInfo(n)); x->vid = 0; return x; }; W->n = 1;
    if (k == 0) { e = leaf(c); if (!s.empty()) e->setName(s); ok(p->registerGNode(&e, {}, r), "register"); } else if (k == 1 || k == 2) { m = leaf("m"); if (k == 1) e = p->createGGroup<TCluster>({ m }, {}, c); else e = p->createGGroup<TRegion>({ m }, {}, c); if (!s.empty()) e->setName(s); ok(p->registerGGroup(&e, {}, r), "register"); }
    else if (k == 3) { if (!c.empty() || !s.empty()) mc_discard(); ok(p->registerGElement<TNode>(&e, {}, r), "register"); static_cast<TNode *>(e)->vid = 0; } else if (k == 4) { if (!c.empty() || !s.empty()) mc_discard(); GFunctionPtr f = nullptr; ok(p->registerGElement<GFunction>(&f, {}, r), "register"); f->setFunction(CFunctionType::RUN, [] { return body(0); }); e = f; } else { if (!c.empty() || !s.empty()) mc_discard(); GFencePtr f = nullptr; ok(p->registerGElement<GFence>(&f, {}, r), "register"); e = f; W->n = 0; }
    if (!l.empty()) e->setName(l); std::string want = !l.empty() ? l : !r.empty() ? r : !s.empty() ? s : !c.empty() ? c : e->getSession(); MC_ASSERT(!want.empty() && e->getName() == want, "an element is called '%s', expected '%s'", e->getName().c_str(), want.c_str());
    MC_ASSERT(isA(e, 0) == (k == 0 || k == 3) && isA(e, 1) == (k == 1 || k == 2) && isA(e, 2) == (k >= 4), "the kind of an element"); std::ostringstream o; ok(p->dump(o), "dump"); Pic pic = parse(o.str()); MC_ASSERT(pic.node.count(idOf(e)) && pic.node[idOf(e)].label == want, "an element called '%s' is drawn as '%s'", want.c_str(), pic.node[idOf(e)].label.c_str());
    if (m) MC_ASSERT(pic.node[idOf(m)].in == idOf(e) && pic.node[idOf(m)].label == "m", "a member is drawn elsewhere"); ok(p->init(), "init"); MC_ASSERT(e->getName() == want, "the name changed"); ok(p->run(), "run"); ok(p->destroy(), "destroy"); for (int i = 0; i < W->n; i++) MC_ASSERT(W->fin[i].peek() == 1, "executed"); GPipelineFactory::remove(p);
}
