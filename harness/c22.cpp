// C22: published messages reach every connection bound to the topic, each an independent bounded FIFO.
#include "common.h"
#include "lin.h"
#include <thread>
#include <deque>
#include <map>
#include <set>
VT_MAIN
using namespace vt;
static long live; static const void *addr[64];
struct Msg : public GMessageParam { long v; long magic = 4711; VT_PLAIN explicit Msg(long x = 0) : v(x) { live++; } VT_PLAIN ~Msg() override { live--; magic = 0; } };
enum { WAIT, REPLACE, DROPNEW, SUB, BIND, DETACH, DROP, CLEAR };
static const GMessagePushStrategy ST[] = { GMessagePushStrategy::WAIT, GMessagePushStrategy::REPLACE, GMessagePushStrategy::DROP };
static const char *NAME[] = { "pub-wait", "pub-replace", "pub-drop", "sub", "bind", "detach", "drop", "clear" };
static std::string showop(const lin::Op &o) { return std::string(NAME[o.kind]) + "(" + std::to_string(o.a) + ", " + std::to_string(o.b) + ") -> " + std::to_string(o.res); }
// one connection: unborn, bound, gone
struct Conn { long id, topic; unsigned cap; int state = 0; std::deque<long> q;
    bool relevant(const lin::Op &o) const { return o.kind == CLEAR || (o.kind == SUB ? o.a == id : o.kind == BIND ? o.res == id : o.kind == DETACH ? o.a == topic && o.b == id : o.a == topic && (o.kind == DROP || o.res == 0)); }
    bool apply(const lin::Op &o) { switch (o.kind) { case CLEAR: state = 2; return true; case BIND: state = 1; return true; case DETACH: case DROP: if (state == 1) state = 2; return true;
        case SUB: if (state != 1 || q.empty()) return o.res == -1; if (o.res != q.front()) return false; q.pop_front(); return true;
        default: { if (state != 1) return true; bool full = q.size() >= cap; if (full && o.kind == WAIT) return false; if (full && o.kind == DROPNEW) return true; if (full && q.empty()) return true; if (full) q.pop_front(); q.push_back(o.b); return true; } } }
    std::string show(const lin::Op &o) const { return (o.kind == BIND ? "connection " + std::to_string(id) + ": " : "") + showop(o); } };
// one topic: does it exist?
struct Exists { long topic; bool has = false;
    bool relevant(const lin::Op &o) const { return o.kind == CLEAR || (o.kind != SUB && o.a == topic); }
    bool apply(const lin::Op &o) { switch (o.kind) { case CLEAR: has = false; return true; case BIND: has = true; return true; case DROP: { bool h = has; has = false; return o.res == (h ? 0 : -1); } default: return o.res == (has ? 0 : -1); } }
    std::string show(const lin::Op &o) const { return "topic " + showop(o); } };
static std::string tn(long t) { return "t" + std::to_string(t); }
static GMessageManager<> *M() { return GMessageManagerSingleton::get(); }
static VT_PLAIN void remember(long v, const void *p) { addr[v] = p; }
static long pub(int st, long topic, long v) { give(v); std::shared_ptr<Msg> m(new Msg(v)); remember(v, m.get()); int i = lin::begin(st, topic, v); auto s = CGRAPH_PUB_MPARAM(Msg, tn(topic), m, ST[st]); return lin::end(i, s.isOK() ? 0 : -1); }
static long sub(long id, CMSec timeout = 99999) { std::shared_ptr<Msg> m; int i = lin::begin(SUB, id); auto s = timeout == 99999 ? M()->subTopicValue<Msg>(id, m) : M()->subTopicValue<Msg>(id, m, timeout); if (s.isOK()) { MC_ASSERT(m && m->magic == 4711 && addr[m->v] == m.get(), "received something that was not published"); taken(m->v); } else MC_ASSERT(!m, "a failed receive gave a message"); return lin::end(i, s.isOK() ? m->v : -1); }
static long bind(long topic, long cap) { int i = lin::begin(BIND, topic, cap); long id = M()->bindTopic<Msg>(tn(topic), cap); return lin::end(i, id); }
static void detach(long topic, long id) { int i = lin::begin(DETACH, topic, id); auto s = CGRAPH_DETACH_CONN_ID(tn(topic), id); lin::end(i, s.isOK() ? 0 : -1); }
static void drop(long topic) { int i = lin::begin(DROP, topic); auto s = CGRAPH_DROP_MESSAGE_TOPIC(tn(topic)); lin::end(i, s.isOK() ? 0 : -1); }
static void clearAll() { int i = lin::begin(CLEAR, -1); auto s = CGRAPH_CLEAR_MESSAGES(); lin::end(i, s.isOK() ? 0 : -1); }
static void start() { handoverStart(); lin::reset(); live = 0; M(); }
static void finish() {
    auto &h = lin::H(); std::set<long> ids; for (int i = 0; i < h.n.peek(); i++) if (h.op[i].kind == BIND) { MC_ASSERT(ids.insert(h.op[i].res).second, "two connections with the same id"); lin::check(Conn{ h.op[i].res, h.op[i].a, (unsigned)h.op[i].b, 0, {} }); }
    for (long t = 0; t < 2; t++) lin::check(Exists{ t }); auto s = CGRAPH_CLEAR_MESSAGES(); ok(s, "clear"); MC_ASSERT(live == 0, "%ld messages are not freed", live); MC_ASSERT(mc_live_threads() == 0, "threads left");
}
// publishers and subscribers of one topic
static void fan(int P, int C, int per) {
    start(); long id[3]; int cap = 1 + mc_choose(2, "capacity"); for (int c = 0; c < C; c++) id[c] = bind(0, c ? 2 : cap); bind(1, 1); int st[2]; for (int i = 0; i < P; i++) st[i] = REPLACE + mc_choose(2, "strategy"); mc_explore(1); mc_timers(1); std::vector<std::thread> t;
    for (int i = 0; i < P; i++) t.emplace_back([&, i] { for (int k = 0; k < per; k++) pub(st[i], 0, 1 + i * 10 + k); }); for (int c = 0; c < C; c++) t.emplace_back([&, c] { sub(id[c], 5); });
    for (auto &x : t) x.join(); mc_explore(0); mc_timers(0); for (int c = 0; c < C; c++) while (sub(id[c], 0) != -1) {} finish();
}
MC_SCENARIO(fan_1_2, 3, 3, 4, 4) { fan(1, 2, 2); }
MC_SCENARIO(fan_2_1, 3, 3, 4, 4) { fan(2, 1, 1); }
MC_SCENARIO(fan_2_2, 2, 2, 3, 3) { fan(2, 2, 1); }
// everybody waits without time limit: every subscriber gets every message, in order
static void flow(int P, int C, int per, bool spurious) {
    start(); long id[3]; for (int c = 0; c < C; c++) id[c] = bind(0, 1 + mc_choose(2, "capacity")); if (spurious) mc_spurious(1); mc_explore(1); std::vector<std::thread> t;
    for (int i = 0; i < P; i++) t.emplace_back([&, i] { for (int k = 0; k < per; k++) MC_ASSERT(pub(WAIT, 0, 1 + i * 10 + k) == 0, "publish failed"); });
    for (int c = 0; c < C; c++) t.emplace_back([&, c] { long last[2] = { 0, 10 }; for (int k = 0; k < per * P; k++) { long v = sub(id[c]); MC_ASSERT(v > 0 && v == ++last[v / 10], "subscriber %d got %ld", c, v); } });
    for (auto &x : t) x.join(); mc_explore(0); for (int c = 0; c < C; c++) MC_ASSERT(sub(id[c], 0) == -1, "a message appeared twice"); finish();
}
MC_SCENARIO(flow_1_2, 3, 3, 5, 5) { flow(1, 2, 2, false); }
MC_SCENARIO(flow_2_1, 3, 3, 4, 4) { flow(2, 1, 2, false); }
MC_SCENARIO(flow_2_2, 2, 2, 3, 3) { flow(2, 2, 2, false); }
MC_SCENARIO(flow_spurious, 2, 2, 3, 3) { flow(1, 2, 2, true); }
// all sequences of calls
static void history(int len) {
    start(); std::vector<long> ids[2]; auto any = [&](int t, size_t k) { return ids[t].size() > k ? ids[t][k] : 77; };
    for (int k = 0; k < len; k++) switch (mc_choose(13, "call")) { case 0: ids[0].push_back(bind(0, 1)); break; case 1: ids[0].push_back(bind(0, 2)); break; case 2: ids[1].push_back(bind(1, 1)); break; case 3: pub(REPLACE, 0, k + 1); break; case 4: pub(DROPNEW, 0, k + 1); break; case 5: pub(REPLACE, 1, k + 1); break; case 6: sub(any(0, 0), 0); break; case 7: sub(any(0, 1), 3); break; case 8: sub(any(1, 0), 0); break; case 9: detach(0, any(0, 0)); break; case 10: detach(0, any(1, 0)); break; case 11: drop(0); break; case 12: detach(0, any(0, 1)); break; }
    pub(REPLACE, 0, 30); for (auto &v : ids) for (long id : v) while (sub(id, 0) != -1) {} finish();
}
MC_SCENARIO(history_4, 0, 0, 0, 0) { history(4); }
MC_SCENARIO(history_5, -1, -1, 0, 0) { history(5); }
MC_SCENARIO(history_6, -1, -1, 0, 0) { history(6); }
// clear() ends every connection and every topic
MC_SCENARIO(cleared, 0, 0, 0, 0) { start(); long a = bind(0, 2), b = bind(1, 2); int n = mc_choose(3, "messages"); for (int k = 0; k < n; k++) { pub(REPLACE, 0, k + 1); pub(DROPNEW, 1, k + 11); } clearAll(); MC_ASSERT(live == 0, "clear() leaves messages"); MC_ASSERT(sub(a, 0) == -1 && sub(b, 0) == -1 && pub(REPLACE, 0, 5) == -1, "clear() leaves a connection"); lin::reset(); long c = bind(0, 2); pub(REPLACE, 0, 7); MC_ASSERT(sub(c, 0) == 7, "lost after clear()"); finish(); }
// connections that come and go while others publish and subscribe (nobody waits without limit)
MC_SCENARIO(lifecycle, 3, 3, 4, 4) {
    start(); long a = bind(0, 2), b = bind(0, 1); int w = mc_choose(3, "who"), st = REPLACE + mc_choose(2, "strategy"); long c = 0; mc_explore(1);
    std::thread x([&] { if (w == 0) detach(0, a); else if (w == 1) drop(0); else c = bind(0, 2); }), y([&] { pub(st, 0, 1); pub(st, 0, 2); }), z([&] { sub(w == 2 ? b : a, 0); });
    x.join(); y.join(); z.join(); mc_explore(0); pub(REPLACE, 0, 3); for (long i : { a, b, c }) if (i) while (sub(i, 0) != -1) {} finish();
}
MC_SCENARIO(two_lifecycles, 3, 3, 4, 4) { start(); long a = bind(0, 1), n[2] = {}; mc_explore(1); std::thread x([&] { n[0] = bind(0, 1); pub(REPLACE, 0, 1); detach(0, n[0]); }), y([&] { if (mc_choose(2, "drop")) drop(0); n[1] = bind(0, 1); pub(REPLACE, 0, 2); }); sub(a, 0); x.join(); y.join(); mc_explore(0); pub(REPLACE, 0, 3); for (long i : { a, n[0], n[1] }) while (sub(i, 0) != -1) {} finish(); }
// the same name as topic of both kinds
MC_SCENARIO(both_kinds, 0, 0, 0, 0) { start(); int order = mc_choose(2, "order"); long id = 0; if (order) id = bind(0, 2); ok(M()->createTopic<Msg>(tn(0), 2), "create"); if (!order) id = bind(0, 2); std::shared_ptr<Msg> m(new Msg(40)), r; ok(M()->sendTopicValue<Msg>(tn(0), m, GMessagePushStrategy::DROP), "send"); remember(40, m.get()); m.reset(); pub(REPLACE, 0, 1); int who = mc_choose(3, "end"); if (who == 1) drop(0); if (who == 2) ok(M()->removeTopic(tn(0)), "remove"); MC_ASSERT(M()->recvTopicValue<Msg>(tn(0), r, 0).isOK() == (who != 2), "receive"); if (who != 2) MC_ASSERT(r->v == 40, "mixed up"); sub(id, 0); r.reset(); finish(); }
// between pipelines, the subscriber bound by a node
class Pub : public GNode { public: CStatus run() override { return CStatus(pub(WAIT, 0, W->beg[0].add(1)) == 0 ? 0 : -1, ""); } };
class Sub : public GNode { public: long id = 0; CStatus init() override { id = bind(0, 1); return CStatus(); } CStatus run() override { long v = sub(id); MC_ASSERT(v == W->fin[std::stoi(getName())].add(1), "message %ld out of order", v); return CStatus(); } };
MC_SCENARIO(pipelines, 1, 1, 2, 2) {
    VT_WORLD start(); GElementPtr a, b, c; auto p = GPipelineFactory::create(), q = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(1)); q->setUniqueThreadPoolConfig(cfg(2)); ok(p->registerGElement<Pub>(&a, {}, "p"), "p"); ok(q->registerGElement<Sub>(&b, {}, "1"), "b"); ok(q->registerGElement<Sub>(&c, {}, "2"), "c"); ok(q->init(), "init"); ok(p->init(), "init"); mc_explore(1);
    std::thread t([&] { for (int r = 0; r < 2; r++) ok(p->run(), "run"); }); for (int r = 0; r < 2; r++) ok(q->run(), "run"); t.join(); mc_explore(0); ok(p->destroy(), "d"); ok(q->destroy(), "d"); GPipelineFactory::clear(); finish();
}
