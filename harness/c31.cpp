// C31: the containers and small utilities equal their reference models, for every sequence of operations.
#include "common.h"
#include <list>
#include <map>
#include <cmath>
#include <algorithm>
VT_MAIN
using namespace vt;
static int I(int v, int *) { return v; }
static std::string I(int v, std::string *) { return std::string(v, 'a' + v) + "-long enough to be on the heap"; }
struct Big { int a = 0, b = 0; std::string s; bool operator==(const Big &o) const { return a == o.a && s == o.s; } };
static Big I(int v, Big *) { Big x; x.a = v; x.s = I(v, (std::string *)nullptr); return x; }
// ---- USmallVector ----
template<class T, int C> static void small(int depth) {
    size_t before = mc_live_bytes();
    if constexpr (std::is_copy_constructible<USmallVector<T, C>>::value) { USmallVector<T, C> a; a.insert(I(1, (T *)nullptr)); auto b = a; b.insert(I(2, (T *)nullptr)); MC_ASSERT(a.size() == 1 && b.size() == 2, "a copy is not independent"); }
    { USmallVector<T, C> v; std::vector<T> m; T *tag = nullptr;
    for (int k = 0; k < depth; k++) {
        int op = mc_choose(10, "op"); int x = op % 3; T val = I(x, tag);
        if (op < 3) { v.insert(val, true); if (std::find(m.begin(), m.end(), val) == m.end()) m.push_back(val); }
        else if (op < 6) { v.insert(val, false); m.push_back(val); }
        else if (op < 8) { val = I(op - 6, tag); bool r = v.remove(val); auto it = std::find(m.begin(), m.end(), val); MC_ASSERT(r == (it != m.end()), "remove() says %d", r); if (it != m.end()) m.erase(it); }
        else if (op == 8) { v.clear(); m.clear(); }
        else if (m.empty()) mc_discard(); else { int what = mc_choose(3, "of its own"); size_t at = what == 1 ? m.size() - 1 : 0; T c = m[at]; if (what < 2) { v.insert(v[at], false); m.push_back(c); } else { MC_ASSERT(v.remove(v[at]), "remove() of its own element"); m.erase(std::find(m.begin(), m.end(), c)); } }
        MC_ASSERT(v.size() == m.size() && v.empty() == m.empty(), "size %zu, expected %zu", (size_t)v.size(), m.size()); MC_ASSERT(v.asVector() == m, "asVector() differs after %d operations", k + 1); size_t i = 0; for (const auto &e : v) { MC_ASSERT(e == m[i], "element %zu", i); i++; } MC_ASSERT(i == m.size(), "iterated over %zu", i); for (int y = 0; y < 3; y++) MC_ASSERT(v.hasValue(I(y, tag)) == (std::find(m.begin(), m.end(), I(y, tag)) != m.end()), "hasValue(%d)", y); if (!m.empty()) MC_ASSERT(v.front() == m.front() && v.back() == m.back(), "front() or back()"); const auto &cv = v; for (size_t j = 0; j < m.size(); j++) MC_ASSERT(v[j] == m[j] && cv[j] == m[j], "operator[]");
    } }
    MC_ASSERT(mc_live_bytes() == before, "%zd bytes are not given back", mc_live_bytes() - before);
}
MC_SCENARIO(small_vector_int_1, 0, 0, 0, 0) { small<int, 1>(5); }
MC_SCENARIO(small_vector_int_2, 0, 0, 0, 0) { small<int, 2>(5); }
MC_SCENARIO(small_vector_int_4, -1, -1, 0, 0) { small<int, 4>(6); }
MC_SCENARIO(small_vector_string, 0, 0, 0, 0) { small<std::string, 1>(4); }
MC_SCENARIO(small_vector_struct, 0, 0, 0, 0) { small<Big, 2>(4); }
MC_SCENARIO(small_vector_struct_5, -1, -1, 0, 0) { small<Big, 2>(5); }
// ---- USerialUniqueArray ----
template<class T> static void unique(int depth) { USerialUniqueArray<T> a; std::vector<T> m; T *tag = nullptr; for (int k = 0; k < depth; k++) { int op = mc_choose(4, "op"); if (op < 3) { T v = I(op, tag); a.uniqueAdd(v); if (std::find(m.begin(), m.end(), v) == m.end()) m.push_back(v); } else { a.clear(); m.clear(); } std::vector<T> o; a.getUniqueArray(o); MC_ASSERT(o == m, "differs after %d operations", k + 1); } }
MC_SCENARIO(unique_array, 0, 0, 0, 0) { mc_choose(2, "type") ? unique<int>(6) : unique<std::string>(6); }
// ---- ULru ----
template<class V, CSize C> static void lru(int depth) {
    size_t before = mc_live_bytes();
    { ULru<int, V, C> l; std::list<std::pair<int, V>> m; V *tag = nullptr; MC_ASSERT(l.getCapacity() == C, "capacity");
    auto find = [&](int k) { return std::find_if(m.begin(), m.end(), [k](auto &p) { return p.first == k; }); };
    for (int k = 0; k < depth; k++) { int op = mc_choose(9, "op"), key = op % 4; if (op < 4) { V v = I(k % 3, tag); l.put(key, v); auto it = find(key); if (it != m.end()) m.erase(it); else if (m.size() == C) m.pop_back(); m.emplace_front(key, v); } else if (op < 8) { V v = I(2, tag), w = v; bool r = l.get(key, v); auto it = find(key); MC_ASSERT(r == (it != m.end()), "get(%d) says %d", key, r); if (r) { MC_ASSERT(v == it->second, "get(%d) returns another value", key); m.splice(m.begin(), m, it); } else MC_ASSERT(v == w, "get() changes the value"); } else { l.clear(); m.clear(); } }
    // what is left, in the order of use: fresh keys evict the oldest first
    int fresh = mc_choose(C + 1, "fresh"); for (int f = 10; f < 10 + fresh; f++) { if (m.size() == C) m.pop_back(); l.put(f, I(0, tag)); m.emplace_front(f, I(0, tag)); }
    for (int k = 0; k < 14; k++) { V v; auto it = find(k); MC_ASSERT(l.get(k, v) == (it != m.end()), "key %d is %s", k, it == m.end() ? "still there" : "gone"); if (it != m.end()) MC_ASSERT(v == it->second, "key %d has another value", k); } }
    MC_ASSERT(mc_live_bytes() == before, "%zd bytes are not given back", mc_live_bytes() - before);
}
MC_SCENARIO(lru_1, 0, 0, 0, 0) { lru<int, 1>(5); }
MC_SCENARIO(lru_2, 0, 0, 0, 0) { lru<int, 2>(5); }
MC_SCENARIO(lru_2_string, 0, 0, 0, 0) { lru<std::string, 2>(4); }
MC_SCENARIO(lru_3, 0, 0, 0, 0) { lru<int, 3>(5); }
MC_SCENARIO(lru_3_deep, -1, -1, 0, 0) { lru<int, 3>(6); }
// ---- distances ----
static bool near(double a, double b) { return (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) < 1e-9; }
template<bool CHECK> static void distances() {
    size_t n1 = mc_choose(4, "dim 1"), n2 = mc_choose(4, "dim 2"); if (!CHECK && n1 != n2) mc_discard(); std::vector<double> a(n1), b(n2); static const double V[] = { -1.5, 0, 2 }; for (auto &x : a) x = V[mc_choose(3, "a")]; for (auto &x : b) x = V[mc_choose(3, "b")];
    bool bad = CHECK && (n1 != n2 || !n1); double dot = 0, aa = 0, bb = 0, dd = 0; if (n1 == n2) for (size_t i = 0; i < n1; i++) { dot += a[i] * b[i]; aa += a[i] * a[i]; bb += b[i] * b[i]; dd += (a[i] - b[i]) * (a[i] - b[i]); }
    double r = 77; UDistanceCalculator<double, double, UEuclideanDistance<double>, CHECK> e; auto s = e.calculate(a, b, r); MC_ASSERT(s.isErr() == bad, "euclidean distance of %zu and %zu dimensions: %d", n1, n2, s.getCode()); if (!bad) MC_ASSERT(near(r, std::sqrt(dd)), "euclidean distance");
    UDistanceCalculator<double, double, UEuclideanDistance<double, double, false>, CHECK> q; s = q.calculate(a, b, r); MC_ASSERT(s.isErr() == bad, "squared distance"); if (!bad) MC_ASSERT(near(r, dd), "squared distance");
    UDistanceCalculator<double, double, UCosineDistance<double>, CHECK> c; s = c.calculate(a, b, r); MC_ASSERT(s.isErr() == bad, "cosine of %zu and %zu dimensions: %d", n1, n2, s.getCode()); if (!bad) MC_ASSERT(near(r, dot / (std::sqrt(aa) * std::sqrt(bb))), "cosine");
    std::vector<double> rs; s = e.calculate(a, std::vector<std::vector<double>>{ a, b }, rs); MC_ASSERT(rs.size() == 2 && s.isErr() == bad, "distances to many: %d", s.getCode()); if (!bad) MC_ASSERT(near(rs[0], 0) && near(rs[1], std::sqrt(dd)), "distances to many");
    auto z = a; s = e.normalize(z); MC_ASSERT(s.isErr() == (CHECK && !n1), "normalize"); if (s.isOK() && aa > 0) for (size_t i = 0; i < n1; i++) MC_ASSERT(near(z[i], a[i] / std::sqrt(aa)), "normalize");
}
MC_SCENARIO(distance_checked, 0, 0, 0, 0) { distances<true>(); }
MC_SCENARIO(distance_unchecked, 0, 0, 0, 0) { distances<false>(); }
MC_SCENARIO(functions, 0, 0, 0, 0) { int n = 1 + mc_choose(3, "n"); std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(mc_choose(5, "v") - 2); int s = 0, p = 1; for (int x : v) s += x, p *= x; MC_ASSERT(CGRAPH_CONTAINER_SUM(v) == s && CGRAPH_CONTAINER_MULTIPLY(v) == p, "sum or product"); if (n == 3) MC_ASSERT(CGRAPH_MAX(v[0], v[1], v[2]) == *std::max_element(v.begin(), v.end()) && CGRAPH_SUM(v[0], v[1], v[2]) == s, "maximum or sum of three"); }
// ---- USingleton: every thread gets the one object, completely constructed ----
struct Obj : CObject { static mc::Var made; long a; Obj() { mc_ordered(&a, sizeof a); made.add(1); a = 5; mc_point(); } CStatus run() override { return CStatus(); } }; mc::Var Obj::made;
template<class S> static void singleton(int th) {
    Obj::made.set(0); S s; mc_explore(1); void *ptr[3] = {}; std::vector<std::thread> t; for (int i = 0; i < th; i++) t.emplace_back([&, i] { auto *o = s.get(); MC_ASSERT(o && o->a == 5, "incomplete"); ptr[i] = o; }); for (auto &x : t) x.join(); mc_explore(0); for (int i = 0; i < th; i++) MC_ASSERT(ptr[i] == ptr[0], "two objects"); MC_ASSERT(Obj::made.peek() == 1, "%ld objects", Obj::made.peek());
}
MC_SCENARIO(singleton_lazy, 3, 3, 5, 5) { singleton<USingleton<Obj, USingletonType::LAZY>>(2); }
MC_SCENARIO(singleton_lazy_3, 2, 2, 3, 3) { singleton<USingleton<Obj, USingletonType::LAZY>>(3); }
MC_SCENARIO(singleton_hungry, 2, 2, 3, 3) { singleton<USingleton<Obj, USingletonType::HUNGRY>>(2); }
