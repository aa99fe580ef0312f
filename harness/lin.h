// Linearisability: the calls of several threads, with the order in which they began and returned, are searched for
// one sequential order (consistent with real time) in which a reference object gives exactly the observed results.
#ifndef VT_LIN_H
#define VT_LIN_H
#include "mc.h"
#include <string>
namespace lin {
struct Op { int kind; long a, b, res, res2; long t0, t1; };
enum { MAXOPS = 24 };
struct History { Op op[MAXOPS]; mc::Var n, clock; };
inline History &H() { static History h; return h; }
#define VT_PLAIN __attribute__((no_sanitize("thread")))
VT_PLAIN inline void reset() { H().n.v = H().clock.v = 0; }
VT_PLAIN inline int begin(int kind, long a = 0, long b = 0) { History &h = H(); int i = (int)h.n.add(1) - 1; if (i >= MAXOPS) mc_fail("harness: too many operations"); Op &o = h.op[i]; o.kind = kind; o.a = a; o.b = b; o.res = o.res2 = 0; o.t1 = -1; o.t0 = h.clock.add(1); return i; }
VT_PLAIN inline long end(int i, long res, long res2 = 0) { History &h = H(); h.op[i].res = res; h.op[i].res2 = res2; h.op[i].t1 = h.clock.add(1); return res; }
template <class S> VT_PLAIN bool search(const S &s, unsigned done) {
    History &h = H(); int n = (int)h.n.peek(); if (done == (1u << n) - 1) return true;
    long first = -1; for (int i = 0; i < n; i++) if (!(done >> i & 1) && h.op[i].t1 >= 0 && (first < 0 || h.op[i].t1 < first)) first = h.op[i].t1;
    bool only_pending = true;
    for (int i = 0; i < n; i++) if (!(done >> i & 1)) { const Op &o = h.op[i]; if (o.t1 >= 0) only_pending = false; if (first >= 0 && o.t0 > first) continue; S c = s; if (c.apply(o) && search(c, done | 1u << i)) return true; }
    return only_pending;         // calls that never returned need not have taken effect
}
template <class S> VT_PLAIN std::string text(const S &s) { History &h = H(); std::string t; for (int i = 0; i < h.n.peek(); i++) t += (i ? "; " : "") + s.show(h.op[i]) + " [" + std::to_string(h.op[i].t0) + "," + std::to_string(h.op[i].t1) + "]"; return t; }
template <class S> VT_PLAIN void check(const S &s) { unsigned skip = 0; for (int i = 0; i < H().n.peek(); i++) if (!s.relevant(H().op[i])) skip |= 1u << i; if (!search(s, skip)) mc_fail("no sequential order explains: %s", text(s).c_str()); }
}
#endif
