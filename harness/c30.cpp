// C30: a pipeline loaded from a saved file is the pipeline that was saved; a torn file is refused.
#include "tree.h"
#include <fstream>
#include <unistd.h>
#include <sys/stat.h>
VT_TREE_MAIN
using namespace vt;
// ---- files: in a scratch directory of this process ----
static std::string path(const char *f) { const char *d = getenv("MC_SCRATCH"); if (!d) mc_fail("no scratch directory"); char b[24]; snprintf(b, sizeof b, "/c30-%07d-", (int)getpid()); return d + std::string(b) + f; }
static std::string slurp(const std::string &f) { std::ifstream i(f, std::ios::binary); return std::string(std::istreambuf_iterator<char>(i), {}); }
static void spew(const std::string &f, const std::string &s) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o.write(s.data(), s.size()); }
struct Scratch { Scratch() { for (auto f : { "a", "b" }) unlink(path(f).c_str()); } };
// ---- elements that find their place in the tree by their name ----
struct Seen { GElementPtr e = nullptr; CSize loop; CIndex bind; GElementRelation rel; int order; };
static std::map<std::string, Seen> *S; static int order;
static TN *named(const std::string &n) { return T->all[atoi(n.c_str() + 1)]; }
static void note(GElementPtr e) { auto &s = (*S)[e->getName()]; MC_ASSERT(!s.e || s.e == e, "two elements are called %s", e->getName().c_str()); if (s.e) return; s.e = e; s.loop = e->getLoop(); s.rel = e->getRelation(); s.order = order++; if (s.rel.belong_) note(s.rel.belong_); }
template<class B> struct SE : B { CBool isMatch() override { auto *t = named(this->getName()); return t->up->take[t->pos]; } };
struct GP : GParam { int v = 7; CVoid reset(const CStatus &) override {} };
struct EP : GElementParam { int v = 3; CVoid clone(GPassedParamPtr p) override { v = ((EP *)p)->v; } };
static std::vector<std::string> *Log; static long slept; static int dur; static int *where; static bool useParam, useE, useStage, useEv;
struct SLeaf : SE<GNode> { CStatus init() override { MC_ASSERT(!(*S)[getName()].e, "two elements are called %s", getName().c_str()); note(this); (*S)[getName()].bind = getBindingIndex(); return CStatus(); }
    CStatus run() override {
        auto *t = named(getName()); int v = t->leaf; enter(v); if (!dur) T->entered(v); if (where) where[v] = mc_tid(); mc_point();
        if (dur) std::this_thread::sleep_for(std::chrono::milliseconds(dur));
        if (useParam) { auto *p = getGParam<GP>("p"); MC_ASSERT(p && p->v == 7, "parameter p is gone"); }
        if (useE) { auto *p = getEParam<EP>("k" + std::to_string(v)); MC_ASSERT(p, "element parameter is gone"); auto *o = getEParam<EP>("k" + std::to_string(v + 1)); MC_ASSERT(!o, "element parameter of another element"); }
        if (useEv) { ok(notify("e", GEventType::SYNC), "notify"); }
        if (useStage) ok(enterStage("s"), "stage");
        leave(v); return CStatus();
    } };
struct SCluster : SE<GCluster> {}; struct SRegion : SE<GRegion> {}; struct SCond : SE<GCondition> { CIndex choose() override { auto *t = named(getName()); for (size_t i = 0; i < t->ch.size(); i++) if (t->take[i]) return i; return t->ch.size(); } };
struct SMS : SE<GMultiCondition<GMultiConditionType::SERIAL>> {}; struct SMP : SE<GMultiCondition<GMultiConditionType::PARALLEL>> {};
struct AspA : GAspect { CStatus beginRun() override { Log->push_back(getName() + "A"); return CStatus(); } }; struct AspB : GAspect { CVoid finishRun(const CStatus &) override { Log->push_back(getName() + "b"); } CStatus beginRun() override { Log->push_back(getName() + "B"); return CStatus(); } };
struct Ev1 : GEvent { static int n; CVoid trigger(GEventParamPtr) override { n++; if (useParam) MC_ASSERT(getGParam<GP>("p"), "the event cannot see the parameter"); } }; int Ev1::n;
struct Dm : GDaemon { static int n; CVoid daemonTask(GDaemonParamPtr) override { n++; if (useParam) MC_ASSERT(getGParam<GP>("p"), "the daemon cannot see the parameter"); } }; int Dm::n;
struct St : GStage { static int n; CVoid launch(GStageParamPtr) override { n++; } }; int St::n;
struct Unknown : GNode { CStatus run() override { return CStatus(); } };
template<class X> static void meta() { GStorageFactory::registerMetaType<X>(); }
static void metas() { meta<SLeaf>(); meta<SCluster>(); meta<SRegion>(); meta<SCond>(); meta<SMS>(); meta<SMP>(); meta<AspA>(); meta<AspB>(); meta<Ev1>(); meta<Dm>(); meta<St>(); meta<GP>(); meta<EP>(); }
static std::string nameOf(Tree &t, TN *x) { for (size_t i = 0; i < t.all.size(); i++) if (t.all[i] == x) return "n" + std::to_string(i); return ""; }
static GElementPtr mk(GPipelinePtr p, Tree &t, TN *x, const GElementPtrSet &d) {
    auto nm = nameOf(t, x); if (x->kind == LEAF) return x->e = p->createGNode<SLeaf>(GNodeInfo(d, nm, x->loop)); GElementPtrArr ch; for (size_t i = 0; i < x->ch.size(); i++) { GElementPtrSet cd; for (size_t j = 0; j < i; j++) if (x->dep[i] >> j & 1) cd.insert(ch[j]); ch.push_back(mk(p, t, x->ch[i], cd)); }
    switch (x->kind) { case CLUSTER: return x->e = p->createGGroup<SCluster>(ch, d, nm, x->loop); case REGION: { auto *r = p->createGGroup<SRegion>(ch, d, nm, x->loop); r->setGEngineType(engine(x->eng)); return x->e = r; } case COND: return x->e = p->createGGroup<SCond>(ch, d, nm, x->loop); case MSERIAL: return x->e = p->createGGroup<SMS>(ch, d, nm, x->loop); default: return x->e = p->createGGroup<SMP>(ch, d, nm, x->loop); }
}
static void reg(GPipelinePtr p, Tree &t) {
    t.prepare(); T = &t; for (size_t i = 0; i < t.root->ch.size(); i++) { auto *x = t.root->ch[i]; GElementPtrSet d; for (size_t j = 0; j < i; j++) if (t.root->dep[i] >> j & 1) d.insert(t.root->ch[j]->e); auto nm = nameOf(t, x); GElementPtr e = x->kind == LEAF ? nullptr : mk(p, t, x, {}); CStatus s;
        switch (x->kind) { case LEAF: s = p->registerGElement<SLeaf>(&e, d, nm, x->loop); break; case CLUSTER: s = p->registerGElement<SCluster>(&e, d, nm, x->loop); break; case REGION: s = p->registerGElement<SRegion>(&e, d, nm, x->loop); break; case COND: s = p->registerGElement<SCond>(&e, d, nm, x->loop); break; case MSERIAL: s = p->registerGElement<SMS>(&e, d, nm, x->loop); break; default: s = p->registerGElement<SMP>(&e, d, nm, x->loop); } ok(s, "register"); x->e = e; }
}
// after init(): what is there is what T says
static void structure(Tree &t) {
    size_t c = 0; for (auto *x : t.all) { if (x->kind == ROOT) continue; c++; auto nm = nameOf(t, x); MC_ASSERT(S->count(nm), "element %s is gone", nm.c_str()); }
    MC_ASSERT(S->size() == c, "%zu elements, expected %zu", S->size(), c);
    for (auto *x : t.all) { if (x->kind == ROOT) continue; auto nm = nameOf(t, x); auto &s = (*S)[nm]; auto f = [&](TN *y) { return (*S)[nameOf(t, y)].e; }; MC_ASSERT((long)s.loop == x->loop, "%s: loop %ld", nm.c_str(), (long)s.loop); MC_ASSERT(s.rel.belong_ == (x->up->kind == ROOT ? nullptr : f(x->up)), "%s: belongs to another group", nm.c_str()); MC_ASSERT(s.rel.children_.size() == x->ch.size(), "%s: children", nm.c_str()); for (size_t i = 0; i < x->ch.size(); i++) MC_ASSERT(s.rel.children_[i] == f(x->ch[i]), "%s: child %zu is another one", nm.c_str(), i);
        size_t d = 0; for (size_t j = 0; j < x->up->ch.size(); j++) { bool in = false; for (auto *q : s.rel.predecessors_) in |= q == f(x->up->ch[j]); bool dep = x->up->dep[x->pos] >> j & 1; MC_ASSERT(in == dep, "%s: dependencies differ", nm.c_str()); d += dep; } MC_ASSERT(s.rel.predecessors_.size() == d, "%s: dependencies", nm.c_str()); }
}
static GPipelinePtr fresh(bool c = true) { auto p = GPipelineFactory::create(); if (c) p->setUniqueThreadPoolConfig(cfg(3)); return p; }
static std::function<void()> *more;
static void go(GPipelinePtr p, Tree &t, int runs = 1) { std::map<std::string, Seen> seen; S = &seen; order = 0; ok(p->init(), "init"); structure(t); if (more) (*more)(); for (int r = 0; r < runs; r++) { mc_explore(1); auto s = runOnce(p); mc_explore(0); ok(s, "run"); allRan(); } ok(p->destroy(), "destroy"); S = nullptr; }
// saves p, loads it into another pipeline (of a fresh process as far as the file is concerned) and, by choice, removes the first before
static GPipelinePtr through(GPipelinePtr p, bool keep = false) { ok(p->save(path("a")), "save"); auto q = GPipelineFactory::create(); ok(q->load(path("a")), "load"); if (!keep) GPipelineFactory::remove(p); return q; }
#define BEGIN Scratch scratch; metas(); VT_WORLD useParam = useE = useStage = useEv = false; more = nullptr; dur = 0; where = nullptr; std::vector<std::string> lg; Log = &lg; Ev1::n = Dm::n = St::n = 0;
static Kind kind(const char *w) { static const Kind K[] = { CLUSTER, REGION, COND, MSERIAL, MPARALLEL }; return K[mc_choose(5, w)]; }
static void edges(TN *g, const char *w) { if (g->kind != REGION && g->kind != ROOT) return; unsigned pre[8]; int n = (int)g->ch.size(); dag(n, mc_choose(dagCount(n), w), pre); for (int i = 0; i < n; i++) g->dep[i] = pre[i]; }
static void cond(TN *g) { if (g->kind != COND) return; int k = mc_choose((int)g->ch.size(), "taken"); for (size_t i = 0; i < g->ch.size(); i++) g->take[i] = (int)i == k; }
static void trip(Tree &t, bool keepFirst) {
    size_t before = 0; for (int k = 0; k < 2; k++) { if (k) before = mc_live_bytes(); auto p = fresh(); reg(p, t); auto q = through(p, keepFirst); if (keepFirst) { go(p, t); GPipelineFactory::remove(p); } go(q, t, 2); auto r = through(q); go(r, t); GPipelineFactory::remove(r); for (auto *x : t.all) x->e = nullptr; } MC_ASSERT(mc_live_bytes() == before, "%zd bytes are not given back", mc_live_bytes() - before); T = nullptr;
}
static void graph(int n) { BEGIN Tree t; std::vector<TN *> l; for (int i = 0; i < n; i++) l.push_back(t.mk(LEAF)); t.root = t.mk(ROOT, l); edges(t.root, "edges"); trip(t, false); }
MC_SCENARIO(graph_3, 0, 0, 1, 1) { graph(3); }
MC_SCENARIO(graph_4, 0, 0, 0, 0) { graph(4); }
MC_SCENARIO(graph_5, -1, -1, 0, 0) { graph(5); }
MC_SCENARIO(graph_6, -1, -1, 0, 0) { graph(6); }
MC_SCENARIO(group, 0, 0, 1, 1) { BEGIN Tree t; auto *a = t.mk(LEAF), *b = t.mk(LEAF), *c = t.mk(LEAF), *d = t.mk(LEAF); auto *g = t.mk(kind("group"), { a, b, c }, 1 + mc_choose(2, "loop")); edges(g, "inner edges"); cond(g); if (g->kind == REGION) g->eng = mc_choose(3, "engine"); t.root = t.mk(ROOT, { g, d }); edges(t.root, "edges"); trip(t, mc_choose(2, "first too")); }
MC_SCENARIO(nested, 0, 0, 0, 0) { BEGIN Tree t; auto *a = t.mk(LEAF), *b = t.mk(LEAF, {}, 2), *c = t.mk(LEAF), *d = t.mk(LEAF); auto *i = t.mk(kind("inner"), { a, b }, 2); edges(i, "inner edges"); cond(i); auto *o = mc_choose(2, "position") ? t.mk(kind("outer"), { c, i }) : t.mk(kind("outer"), { i, c }); edges(o, "outer edges"); cond(o); t.root = t.mk(ROOT, { o, d }); edges(t.root, "edges"); trip(t, false); }
MC_SCENARIO(nested_twice, -1, -1, 0, 0) { BEGIN Tree t; auto *a = t.mk(LEAF), *b = t.mk(LEAF), *c = t.mk(LEAF), *d = t.mk(LEAF); auto *i = t.mk(kind("inner"), { a, b }); edges(i, "inner edges"); cond(i); auto *o = t.mk(kind("middle"), { i, c }); edges(o, "middle edges"); cond(o); auto *q = t.mk(kind("outer"), { d, o }); edges(q, "outer edges"); cond(q); t.root = t.mk(ROOT, { q }); trip(t, false); }
// every attribute of an element, at the top level or within a group
MC_SCENARIO(attributes, 0, 0, 0, 0) {
    BEGIN Tree t; int nest = mc_choose(3, "place"); auto *a = t.mk(LEAF, {}, 1 + 2 * mc_choose(2, "loop")), *b = t.mk(LEAF); if (nest) t.root = t.mk(ROOT, { t.mk(nest == 1 ? CLUSTER : REGION, { a, b }) }); else t.root = t.mk(ROOT, { a, b });
    auto p = fresh(); reg(p, t); int bind = mc_choose(2, "binding"), lev = mc_choose(3, "level"); bool mac = mc_choose(2, "macro"); CIndex dflt = -1; { std::map<std::string, Seen> x; }
    if (bind) a->e->setBindingIndex(1); if (mac) a->e->setMacro(true); if (lev) a->e->setLevel(lev == 1 ? 5 : -5);
    auto na = nameOf(t, a), nb = nameOf(t, b); std::function<void()> chk = [&] { auto &x = (*S)[na], &y = (*S)[nb]; MC_ASSERT((x.bind != y.bind) == bind && (!bind || x.bind == 1), "binding index %d", (int)x.bind); if (lev && nest != 1) MC_ASSERT((x.order > y.order) == (lev == 1), "the level is gone"); }; (void)dflt; more = &chk; bool keep = mc_choose(2, "first too"); auto q = through(p, keep); if (keep) { go(p, t); GPipelineFactory::remove(p); } go(q, t); auto r = through(q); go(r, t); GPipelineFactory::remove(r); more = nullptr; T = nullptr;
}
MC_SCENARIO(invisible, 0, 0, 0, 0) {
    BEGIN Tree t; int nest = mc_choose(4, "place"); auto *a = t.mk(LEAF), *b = t.mk(LEAF); static const Kind K[] = { ROOT, CLUSTER, REGION, MSERIAL }; if (nest) t.root = t.mk(ROOT, { t.mk(K[nest], { a, b }) }); else t.root = t.mk(ROOT, { a, b }); auto p = fresh(); reg(p, t); bool vis = mc_choose(2, "visible"); b->e->setVisible(vis); if (!vis) W->loops[b->leaf] = 0; auto q = through(p); std::map<std::string, Seen> seen; S = &seen; ok(q->init(), "init"); ok(runOnce(q), "run"); allRan(); ok(q->destroy(), "destroy"); S = nullptr; GPipelineFactory::remove(q); T = nullptr;
}
// time limits: at the top level or within a group, with every strategy; the element takes longer or not
MC_SCENARIO(time_limit, 0, 0, 1, 1) {
    BEGIN Tree t; int nest = mc_choose(3, "place"); auto *a = t.mk(LEAF), *b = t.mk(LEAF); if (nest) t.root = t.mk(ROOT, { t.mk(nest == 1 ? CLUSTER : REGION, { a, b }) }); else t.root = t.mk(ROOT, { a, b }); auto p = fresh(); reg(p, t); int st = mc_choose(3, "strategy"); static const GElementTimeoutStrategy Z[] = { GElementTimeoutStrategy::AS_ERROR, GElementTimeoutStrategy::HOLD_BY_PIPELINE, GElementTimeoutStrategy::NO_HOLD }; bool late = mc_choose(2, "late"); dur = 50; a->e->setTimeout(late ? 20 : 500, Z[st]); auto q = through(p);
    std::map<std::string, Seen> seen; S = &seen; order = 0; ok(q->init(), "init"); mc_explore(1); W->checkActive = false; auto s = runOnce(q); MC_ASSERT(s.isErr() == (late && st == 0), "run() of an element that is%s late: %d (%s)", late ? "" : " not", s.getCode(), s.getInfo().c_str()); if (st == 1 || !late) MC_ASSERT(W->fin[0].peek() == 1, "the pipeline did not wait for the late element"); ok(q->destroy(), "destroy"); S = nullptr; GPipelineFactory::remove(q); T = nullptr;
}
// what is attached: every combination of parameter, element parameter, aspects, events, daemon, stage
MC_SCENARIO(attachments, 0, 0, 0, 0) {
    BEGIN Tree t; int nest = mc_choose(3, "place"); auto *a = t.mk(LEAF), *b = t.mk(LEAF); if (nest) t.root = t.mk(ROOT, { t.mk(nest == 1 ? CLUSTER : REGION, { a, b }) }); else t.root = t.mk(ROOT, { a, b }); bool dep = nest != 1; auto *up = a->up; if (dep) up->dep[1] = 1;
    auto p = fresh(); reg(p, t); int par = mc_choose(3, "parameter"), asp = mc_choose(5, "aspects"); bool ep = mc_choose(2, "element parameter"), ev = mc_choose(2, "event"), dm = mc_choose(2, "daemon"), st = mc_choose(2, "stage");
    if (par) ok(p->createGParam<GP>("p", par == 2), "param"); if (ep) { EP x; a->e->addEParam("k0", &x); b->e->addEParam("k1", &x); } auto *at = asp == 4 ? t.root->ch[0]->e : a->e; if (asp == 1) a->e->addGAspect<AspA>(); if (asp == 2) { a->e->addGAspect<AspA>(); a->e->addGAspect<AspB>(); } if (asp == 3) { a->e->addGAspect<AspB>(); a->e->addGAspect<AspA>(); } if (asp == 4) at->addGAspect<AspB>(); if (ev) p->addGEvent<Ev1>("e"); if (dm) p->addGDaemon<Dm>(100); if (st) p->addGStage<St>("s", 1);
    useParam = par; useE = ep; useEv = ev; useStage = st; auto q = through(p); std::map<std::string, Seen> seen; S = &seen; order = 0; ok(q->init(), "init"); structure(t); if (ev) W->checkActive = false; ok(runOnce(q), "run"); allRan(); auto an = a->e ? nameOf(t, at == a->e ? a : t.root->ch[0]) : ""; std::vector<std::string> want; if (asp == 1) want = { an + "A" }; if (asp == 2) want = { an + "A", an + "B", an + "b" }; if (asp == 3) want = { an + "B", an + "A", an + "b" }; if (asp == 4) want = { an + "B", an + "b" }; MC_ASSERT(lg == want, "aspects executed: %zu, expected %zu", lg.size(), want.size());
    MC_ASSERT(Ev1::n == (ev ? 2 : 0), "event executed %d times", Ev1::n); MC_ASSERT(St::n == (st ? 2 : 0), "stage launched %d times", St::n); if (dm) { std::this_thread::sleep_for(std::chrono::milliseconds(350)); MC_ASSERT(Dm::n == 3, "daemon executed %d times in 350 ms, its interval is 100 ms", Dm::n); }
    if (par) { auto *x = q->getGParam<GP>("p"); MC_ASSERT(x, "no parameter"); size_t n = 0; try { n = x->getBacktrace().size(); } catch (const CException &) {} MC_ASSERT((n > 0) == (par == 2), "backtrace of %zu entries, backtrace was %s", n, par == 2 ? "on" : "off"); } else MC_ASSERT(!q->getGParam<GP>("p"), "parameter from nowhere");
    ok(q->destroy(), "destroy"); S = nullptr; GPipelineFactory::remove(q); T = nullptr;
}
MC_SCENARIO(stage_threshold, 0, 0, 1, 1) { BEGIN Tree t; int th = 1 + mc_choose(3, "threshold"); std::vector<TN *> l; for (int i = 0; i < th; i++) l.push_back(t.mk(LEAF)); t.root = t.mk(ROOT, l); auto p = fresh(false); p->setUniqueThreadPoolConfig(cfg(3)); reg(p, t); p->addGStage<St>("s", th); useStage = true; auto q = through(p); go(q, t, 2); MC_ASSERT(St::n == 2, "the stage was launched %d times, its threshold is %d", St::n, th); GPipelineFactory::remove(q); T = nullptr; }
// the engine of the pipeline and of a region: serial execution in the thread of the caller where that was asked for
MC_SCENARIO(engines, 1, 1, 1, 2) { BEGIN Tree t; auto *a = t.mk(LEAF), *b = t.mk(LEAF), *c = t.mk(LEAF); bool r = mc_choose(2, "region"); int e = mc_choose(3, "engine"); if (r) { auto *g = t.mk(REGION, { a, b, c }); g->eng = e; t.root = t.mk(ROOT, { g }); } else t.root = t.mk(ROOT, { a, b, c }); auto p = fresh(); if (!r) p->setGEngineType(engine(e)); reg(p, t); int wh[8] = {}; where = wh; W->serial = e == 2; auto q = through(p); go(q, t); if (e == 2) MC_ASSERT(!wh[0] && !wh[1] && !wh[2], "the engine is another one"); else MC_ASSERT(wh[0] || wh[1] || wh[2], "the engine is another one"); GPipelineFactory::remove(q); T = nullptr; }
// the configuration of the thread pool: every field is in the file (changing it changes the file), and survives a load and a save (the file is the same)
static void field(UThreadPoolConfig &c, int f) { switch (f) { case 0: break; case 1: c.default_thread_size_ = 5; break; case 2: c.secondary_thread_size_ = 2; break; case 3: c.max_thread_size_ = 31; break; case 4: c.max_task_steal_range_++; break; case 5: c.max_local_batch_size_++; break; case 6: c.max_pool_batch_size_++; break; case 7: c.max_steal_batch_size_++; break; case 8: c.pipeline_wait_busy_epoch_++; break; case 9: c.primary_thread_busy_epoch_++; break; case 10: c.primary_thread_empty_interval_++; break; case 11: c.secondary_thread_ttl_++; break; case 12: c.monitor_span_++; break; case 13: c.queue_emtpy_interval_++; break; case 14: c.primary_thread_policy_++; break; case 15: c.secondary_thread_policy_++; break; case 16: c.primary_thread_priority_++; break; case 17: c.secondary_thread_priority_++; break; case 18: c.bind_cpu_enable_ = !c.bind_cpu_enable_; break; case 19: c.batch_task_enable_ = !c.batch_task_enable_; break; case 20: c.monitor_enable_ = !c.monitor_enable_; break; case 21: c.deliver_running_primary_thread_enable_ = !c.deliver_running_primary_thread_enable_; break; } }
MC_SCENARIO(config, 0, 0, 0, 0) { BEGIN int f = mc_choose(22, "field"), g = mc_choose(22, "another"); UThreadPoolConfig c; c.max_thread_size_ = 30; auto d = c; field(c, f); if (g != f) field(c, g); auto p = GPipelineFactory::create(), o = GPipelineFactory::create(); o->setUniqueThreadPoolConfig(d); p->setUniqueThreadPoolConfig(c); ok(p->save(path("a")), "save"); ok(o->save(path("b")), "save"); auto x = slurp(path("a")); MC_ASSERT(x.size() && (x == slurp(path("b"))) == (!f && !g), "field %d of the configuration is not in the file", f ? f : g); ok(o->load(path("a")), "load"); ok(o->save(path("b")), "save"); MC_ASSERT(x == slurp(path("b")), "the configuration changed (%d, %d)", f, g); GPipelineFactory::remove(p); GPipelineFactory::remove(o); }
MC_SCENARIO(threads, 0, 0, 0, 0) { BEGIN int k = mc_choose(4, "threads"), s = mc_choose(3, "secondary"); bool m = mc_choose(2, "monitor"); if (!k && !s) mc_discard(); Tree t; t.root = t.mk(ROOT, { t.mk(LEAF) }); auto p = fresh(false); auto c = cfg(k, s); c.monitor_enable_ = m; c.max_thread_size_ = k + s; p->setUniqueThreadPoolConfig(c); reg(p, t); auto q = through(p); std::map<std::string, Seen> seen; S = &seen; ok(q->init(), "init"); int n = mc_live_threads(); MC_ASSERT(n == k + s + m, "%d threads, expected %d", n, k + s + m); ok(runOnce(q), "run"); allRan(); ok(q->destroy(), "destroy"); S = nullptr; GPipelineFactory::remove(q); T = nullptr; }
// a file of which only a part was written is refused, and the pipeline that refused it can load another one
static void torn(int lo, int hi) {
    BEGIN Tree t; auto *a = t.mk(LEAF), *b = t.mk(LEAF), *c = t.mk(LEAF); auto *g = t.mk(REGION, { a, b }); g->dep[1] = 1; t.root = t.mk(ROOT, { g, c }); t.root->dep[1] = 1; auto p = fresh(); reg(p, t); ok(p->createGParam<GP>("p", true), "param"); p->addGEvent<Ev1>("e"); p->addGStage<St>("s", 1); p->addGDaemon<Dm>(1000); a->e->addGAspect<AspA>(); EP x; a->e->addEParam("k0", &x); ok(p->save(path("a")), "save"); GPipelineFactory::remove(p); auto f = slurp(path("a")); int n = (int)f.size(); MC_ASSERT(n > 200, "file of %d bytes", n); int parts = 16, at = mc_choose(parts, "part"), from = (long)n * at / parts, to = (long)n * (at + 1) / parts; int cut = from + mc_choose(to - from, "length"); (void)lo; (void)hi; mc_note("torn after %d of %d bytes", cut, n);
    spew(path("b"), f.substr(0, cut)); auto q = fresh(); auto s = q->load(path("b")); MC_ASSERT(s.isErr(), "a file torn after %d of %d bytes was loaded", cut, n); ok(q->load(path("a")), "load"); go(q, t); GPipelineFactory::remove(q); T = nullptr;
}
MC_SCENARIO(torn_file, 0, 0, 0, 0) { torn(0, 0); }
// the statuses of failing calls
MC_SCENARIO(failures, 0, 0, 0, 0) {
    BEGIN Tree t; t.root = t.mk(ROOT, { t.mk(LEAF) }); auto p = fresh(); reg(p, t); auto q = fresh(); switch (mc_choose(7, "case")) {
        case 0: MC_ASSERT(p->save("/dev/full").isErr(), "save to a full device succeeds"); break; case 1: MC_ASSERT(p->save(path("no/such")).isErr(), "save without a directory succeeds"); break; case 2: MC_ASSERT(q->load(path("b")).isErr(), "load of no file succeeds"); break;
        case 4: { GElementPtr u = nullptr; ok(p->registerGElement<Unknown>(&u), "register"); ok(p->save(path("a")), "save"); MC_ASSERT(q->load(path("a")).isErr(), "load of an unknown class succeeds"); break; }
        case 5: { GElementPtr f = nullptr; ok(p->registerGElement<GFence>(&f), "register"); MC_ASSERT(p->save(path("a")).isErr(), "save of an adaptor succeeds"); break; }
        case 6: { p->addGEvent<Ev1>("e"); std::map<std::string, Seen> seen; S = &seen; ok(p->init(), "init"); MC_ASSERT(p->save(path("a")).isErr() && p->load(path("a")).isErr(), "save() or load() of an initialised pipeline"); ok(p->destroy(), "destroy"); S = nullptr; break; }
        case 3: { ok(p->save(path("a")), "save"); auto f = slurp(path("a")); ok(p->save(path("a")), "save"); MC_ASSERT(f == slurp(path("a")), "save() twice"); break; } }
    go(p, t); GPipelineFactory::remove(p); GPipelineFactory::remove(q); T = nullptr;
}
// a file that names a class which is not registered, wherever it is used, is refused and leaves nothing in the pipeline, which loads another one as if nothing had been
struct UGroup : GCluster {}; struct UAsp : GAspect {}; struct UEv : GEvent { CVoid trigger(GEventParamPtr) override {} }; struct UDm : GDaemon { CVoid daemonTask(GDaemonParamPtr) override {} }; struct USt : GStage {}; struct UGP : GParam { CVoid reset(const CStatus &) override {} }; struct UEP : GElementParam { CVoid clone(GPassedParamPtr) override {} };
MC_SCENARIO(unknown_class, 0, 0, 0, 0) {
    BEGIN Tree t; auto *a = t.mk(LEAF), *b = t.mk(LEAF), *c = t.mk(LEAF); auto *g = t.mk(mc_choose(2, "group") ? REGION : CLUSTER, { a, b }); t.root = t.mk(ROOT, { g, c }); t.root->dep[1] = 1; auto p = fresh(); reg(p, t); ok(p->createGParam<GP>("p", true), "param"); p->addGEvent<Ev1>("e"); p->addGStage<St>("s", 1); p->addGDaemon<Dm>(1000); c->e->addGAspect<AspA>(); EP x; c->e->addEParam("k2", &x); ok(p->save(path("a")), "save"); GElementPtr u = nullptr; int k = mc_choose(9, "what is unknown"); auto *in = k % 2 ? a->e : (GElementPtr)g->e;
    switch (k) { case 0: ok(p->registerGElement<Unknown>(&u, { c->e }), "register"); break; case 1: { auto *n = p->createGNode<Unknown>(); u = p->createGGroup<GCluster>({ n }); ok(p->registerGGroup(&u), "register"); break; } case 2: u = p->createGGroup<UGroup>({ p->createGNode<SLeaf>() }); ok(p->registerGGroup(&u), "register"); break; case 3: case 4: if (k == 3) in->addGAspect<AspA>(); in->addGAspect<UAsp>(); break; case 5: { UEP y; in->addEParam("u", &y); break; } case 6: p->addGEvent<UEv>("u"); break; case 7: ok(p->createGParam<UGP>("u"), "param"); break; case 8: if (mc_choose(2, "daemon")) p->addGDaemon<UDm>(1000); else p->addGStage<USt>("u", 1); break; }
    ok(p->save(path("b")), "save"); GPipelineFactory::remove(p); for (int l = 0; l < 2; l++) { auto q = fresh(); std::ostringstream o, o2; q->dump(o); long bytes = 0; for (int n = 0; n < 2; n++) { auto r = q->load(path("b")); MC_ASSERT(r.isErr(), "a file with a class that is not registered was loaded"); if (n) MC_ASSERT(mc_live_bytes() == bytes, "the refused load leaves %ld bytes", mc_live_bytes() - bytes); bytes = mc_live_bytes(); }
        q->dump(o2); MC_ASSERT(o.str() == o2.str(), "the refused load leaves elements"); if (l) { for (auto *y : t.all) y->e = nullptr; ok(q->load(path("a")), "load"); go(q, t); } GPipelineFactory::remove(q); } T = nullptr;
}
