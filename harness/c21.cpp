// C21: send/recv topics are bounded FIFO queues shared by all pipelines and threads.
#include "common.h"
#include "lin.h"
#include <thread>
#include <deque>
#include <map>
VT_MAIN
using namespace vt;
static long live, wrong; static const void *addr[64];
struct Msg : public GMessageParam { long v; long magic = 4711; VT_PLAIN explicit Msg(long x = 0) : v(x) { live++; } VT_PLAIN ~Msg() override { live--; magic = 0; } };
struct Msg2 : public Msg { std::string s; };
enum { WAIT, REPLACE, DROP, RECV, CREATE, REMOVE, CLEAR };
static const GMessagePushStrategy ST[] = { GMessagePushStrategy::WAIT, GMessagePushStrategy::REPLACE, GMessagePushStrategy::DROP };
static const char *NAME[] = { "send-wait", "send-replace", "send-drop", "recv", "create", "remove", "clear" };
// the reference: topics, each a bounded FIFO
struct Topics {
    struct T { unsigned cap; int type; std::deque<long> q; }; std::map<long, T> m; bool open = false;
    bool apply(const lin::Op &o) {          // a = topic (or -1), b = value / capacity (+100 for the other type)
        auto it = m.find(o.a); bool has = it != m.end();
        switch (o.kind) {
        case CREATE: if (!has) { m[o.a] = T{ (unsigned)(o.b % 100), (int)(o.b / 100), {} }; return o.res == 0; } return o.res == (it->second.cap == (unsigned)(o.b % 100) && it->second.type == o.b / 100 ? 0 : -1);
        case REMOVE: if (has) m.erase(it); return o.res == (has ? 0 : -1);
        case CLEAR: m.clear(); return o.res == 0;
        case RECV: if (!has || it->second.q.empty()) return o.res == -1; if (o.res != it->second.q.front()) return false; it->second.q.pop_front(); return true;
        default: if (!has) return o.res == -1; if (o.res != 0) return false; auto &q = it->second.q; bool full = q.size() >= it->second.cap;
            if (full && o.kind == WAIT) return false; if (full && o.kind == DROP) return true; if (full && o.kind == REPLACE) { if (q.empty()) return true; q.pop_front(); } q.push_back(o.b); return true; } }
    bool relevant(const lin::Op &) const { return true; }
    std::string show(const lin::Op &o) const { return std::string(NAME[o.kind]) + "(topic " + std::to_string(o.a) + (o.kind < RECV || o.kind == CREATE ? ", " + std::to_string(o.b) : "") + ") -> " + std::to_string(o.res); } };
static std::string tn(long t) { return "topic" + std::to_string(t); }
static VT_PLAIN void remember(long v, const void *p) { addr[v] = p; }
static long send(int strategy, long topic, long v) { give(v); int i = lin::begin(strategy, topic, v); std::shared_ptr<Msg> m(new Msg(v)); remember(v, m.get()); auto s = CGRAPH_SEND_MPARAM(Msg, tn(topic), m, ST[strategy]); return lin::end(i, s.isOK() ? 0 : -1); }
static long recv(long topic, CMSec timeout) { int i = lin::begin(RECV, topic); std::shared_ptr<Msg> m; auto s = timeout == 99999 ? GMessageManagerSingleton::get()->recvTopicValue<Msg>(tn(topic), m) : GMessageManagerSingleton::get()->recvTopicValue<Msg>(tn(topic), m, timeout); if (s.isOK()) { MC_ASSERT(m && m->magic == 4711 && addr[m->v] == m.get(), "received something that was not sent"); taken(m->v); } else MC_ASSERT(!m, "a failed receive gave a message"); return lin::end(i, s.isOK() ? m->v : -1); }
static long create(long topic, long cap, int type = 0) { int i = lin::begin(CREATE, topic, cap + type * 100); auto s = type ? GMessageManagerSingleton::get()->createTopic<Msg2>(tn(topic), cap) : GMessageManagerSingleton::get()->createTopic<Msg>(tn(topic), cap); return lin::end(i, s.isOK() ? 0 : -1); }
static long removeTopic(long topic) { int i = lin::begin(REMOVE, topic); auto s = CGRAPH_REMOVE_MESSAGE_TOPIC(tn(topic)); return lin::end(i, s.isOK() ? 0 : -1); }
static long clearAll() { int i = lin::begin(CLEAR, -1); auto s = CGRAPH_CLEAR_MESSAGES(); return lin::end(i, s.isOK() ? 0 : -1); }
static void start() { handoverStart(); lin::reset(); live = 0; GMessageManagerSingleton::get(); }
static void finish(bool inc = true) { if (inc) lin::check(Topics()); auto s = CGRAPH_CLEAR_MESSAGES(); ok(s, "clear"); MC_ASSERT(live == 0, "%ld messages are not freed", live); MC_ASSERT(mc_blocked_threads() == 0 && mc_live_threads() == 0, "threads left"); }
// senders and receivers of one topic, any mix of strategies
static void mix(int S, int R, int per, int caps) {
    start(); int cap = 1 + mc_choose(caps, "capacity"); create(0, cap); int st[3]; for (int i = 0; i < S; i++) st[i] = mc_choose(3, "strategy"); int pre = mc_choose(2, "filled"); if (pre) for (int i = 0; i < cap; i++) send(WAIT, 0, 40 + i);
    bool wait = false; for (int i = 0; i < S; i++) wait |= st[i] == WAIT; mc_explore(1); mc_timers(1); std::vector<std::thread> t; mc::Var sent;
    for (int i = 0; i < S; i++) t.emplace_back([&, i] { for (int k = 0; k < per; k++) send(st[i], 0, 1 + i * 10 + k); sent.add(1); });
    for (int r = 0; r < R; r++) t.emplace_back([&] { for (int k = 0; k < per; k++) recv(0, 5); });
    mc_timers(0); if (wait) while (sent.get() < S) { recv(0, 5); if (lin::H().n.peek() > 18) mc_discard(); }
    for (auto &x : t) x.join(); mc_explore(0); mc_timers(0); while (recv(0, 0) != -1) {} finish();
}
MC_SCENARIO(mixed_1_1, 3, 3, 5, 5) { mix(1, 1, 2, 2); }
MC_SCENARIO(mixed_2_1, 2, 2, 3, 3) { mix(2, 1, 1, 2); }
MC_SCENARIO(mixed_1_2, 2, 2, 3, 3) { mix(1, 2, 1, 2); }
MC_SCENARIO(mixed_2_2, 1, 1, 2, 2) { mix(2, 2, 1, 2); }
// waiting senders and receivers without time limit: everybody gets through, nothing is lost, order is kept
static void flow(int S, int R, int per, bool spurious) {
    start(); int cap = 1 + mc_choose(2, "capacity"); create(0, cap); if (spurious) mc_spurious(1); mc_explore(1); std::vector<std::thread> t;
    for (int i = 0; i < S; i++) t.emplace_back([&, i] { for (int k = 0; k < per; k++) MC_ASSERT(send(WAIT, 0, 1 + i * 10 + k) == 0, "send failed"); });
    for (int r = 0; r < R; r++) t.emplace_back([&] { for (int k = 0; k < per * S / R; k++) MC_ASSERT(recv(0, 99999) != -1, "receive failed"); });
    for (auto &x : t) x.join(); mc_explore(0); MC_ASSERT(recv(0, 0) == -1, "a message appeared twice"); finish();
}
MC_SCENARIO(flow_1_1, 4, 4, 6, 6) { flow(1, 1, 3, false); }
MC_SCENARIO(flow_2_1, 3, 3, 4, 4) { flow(2, 1, 2, false); }
MC_SCENARIO(flow_2_2, 2, 2, 3, 3) { flow(2, 2, 2, false); }
MC_SCENARIO(flow_1_2_spurious, 2, 2, 3, 3) { flow(1, 2, 2, true); }
// all sequences of calls on two topics, against the reference
static void history(int len) {
    start(); for (int k = 0; k < len; k++) { static const int op[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10 }; (void)op; Topics ref; // the calls so far say whether a waiting send would block
        for (int i = 0; i < lin::H().n.peek(); i++) MC_ASSERT(ref.apply(lin::H().op[i]), "%s: %s", "not as the reference", lin::text(ref).c_str());
        int c = mc_choose(11, "call"); long v = k + 1; auto full = [&](long t) { return ref.m.count(t) && ref.m[t].q.size() >= ref.m[t].cap; };
        switch (c) { case 0: create(0, 1); break; case 1: create(0, 2); break; case 2: create(0, 2, 1); break; case 3: create(1, 2); break; case 4: if (full(0)) mc_discard(); send(WAIT, 0, v); break; case 5: send(REPLACE, 0, v); break; case 6: send(DROP, 0, v); break; case 7: recv(0, 0); break; case 8: removeTopic(0); break; case 9: send(REPLACE, 1, v); break; case 10: if (k % 2) clearAll(); else recv(1, 3); break; } }
    finish();
}
MC_SCENARIO(history_4, 0, 0, 0, 0) { history(4); }
MC_SCENARIO(history_5, -1, -1, 0, 0) { history(5); }
// longer sequences of sends and receives: the ring wraps around
static void wrap(int len) {
    start(); int cap = mc_choose(4, "capacity"); create(0, cap); Topics ref; int done = 0;
    for (int k = 0; k < len; k++) { for (; done < lin::H().n.peek(); done++) MC_ASSERT(ref.apply(lin::H().op[done]), "not as the reference: %s", lin::text(ref).c_str()); bool full = (int)ref.m[0].q.size() >= cap; int c = mc_choose(full ? 3 : 2, "call"); if (c == 0) recv(0, 0); else if (full) send(c, 0, k + 1); else send(k % 3, 0, k + 1); }
    for (; done < lin::H().n.peek(); done++) MC_ASSERT(ref.apply(lin::H().op[done]), "not as the reference: %s", lin::text(ref).c_str()); finish(false);
}
MC_SCENARIO(wrap_around, 0, 0, 0, 0) { wrap(9); }
MC_SCENARIO(wrap_around_12, -1, -1, 0, 0) { wrap(12); }
// topics created and removed while others use them (nobody is waiting at the topic that is removed)
MC_SCENARIO(lifecycle, 3, 3, 4, 4) {
    start(); int w = mc_choose(4, "who"); create(0, 2); if (w & 1) send(DROP, 0, 9); mc_explore(1);
    std::thread a([&] { if (w & 2) { clearAll(); create(1, 1); } else { removeTopic(0); create(0, 1); } }), b([&] { send(DROP, 0, 1); send(REPLACE, 1, 2); }), c([&] { recv(0, 0); create(0, 2); });
    a.join(); b.join(); c.join(); mc_explore(0); recv(0, 0); recv(0, 0); recv(1, 0); finish();
}
MC_SCENARIO(creators, 3, 3, 5, 5) { start(); mc_explore(1); std::thread a([&] { create(0, 1); send(DROP, 0, 1); }), b([&] { create(0, 1 + mc_choose(2, "capacity")); recv(0, 0); }); create(1, 1); removeTopic(1); a.join(); b.join(); mc_explore(0); recv(0, 0); finish(); }
// receive with a time limit returns at the limit, or with the message, and an unknown topic is refused at once
MC_SCENARIO(timeout, 3, 3, 5, 5) {
    start(); create(0, 1); long t = mc_now_ms(); MC_ASSERT(recv(1, 100) == -1 && send(WAIT, 1, 9) == -1, "unknown topic"); MC_ASSERT(mc_now_ms() - t < 100, "an unknown topic is not refused at once"); mc_explore(1); int d = mc_choose(3, "delay");
    std::thread a([&] { std::this_thread::sleep_for(std::chrono::milliseconds(d == 0 ? 0 : d == 1 ? 20 : 70)); send(WAIT, 0, 1); }); t = mc_now_ms(); long r = recv(0, 50); long e = mc_now_ms() - t; MC_ASSERT(d == 2 ? r == -1 && e >= 50 && e < 70 : r == 1 && e <= 50, "receive gave %ld after %ld ms", r, e); a.join(); mc_explore(0); finish(false);
}
// between pipelines
class Snd : public GNode { public: CStatus run() override { for (int k = 0; k < 2; k++) { long v = W->beg[0].add(1); if (send(WAIT, 0, v) != 0) return CStatus("send"); } return CStatus(); } };
class Rcv : public GNode { public: CStatus run() override { for (int k = 0; k < 2; k++) { long v = recv(0, 99999); MC_ASSERT(v == W->fin[0].add(1), "message %ld out of order", v); } return CStatus(); } };
MC_SCENARIO(pipelines, 1, 1, 2, 2) {
    VT_WORLD start(); create(0, 1); GElementPtr a, b; auto p = GPipelineFactory::create(), q = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(cfg(1)); q->setUniqueThreadPoolConfig(cfg(1)); ok(p->registerGElement<Snd>(&a, {}, "s"), "s"); ok(q->registerGElement<Rcv>(&b, {}, "r"), "r"); ok(p->init(), "init"); ok(q->init(), "init"); mc_explore(1);
    std::thread t([&] { for (int r = 0; r < 2; r++) ok(p->run(), "run"); }); for (int r = 0; r < 2; r++) ok(q->run(), "run"); t.join(); mc_explore(0); ok(p->destroy(), "d"); ok(q->destroy(), "d"); GPipelineFactory::clear(); finish();
}
