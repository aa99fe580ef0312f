// The parts of std::set, std::map and std::list that live inside libstdc++.so, compiled with instrumentation so that unsynchronised
// use of a container is seen. Same contract as libstdc++'s; the tree is not rebalanced.
#include <map>
#include <list>
#include <set>
namespace std {
using P = _Rb_tree_node_base *; using C = const _Rb_tree_node_base *;
static P inc(P x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; } P y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } return x->_M_right != y ? y : x; }
static P dec(P x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) { P y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; } P y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
P _Rb_tree_increment(P x) throw() { return inc(x); }
C _Rb_tree_increment(C x) throw() { return inc(const_cast<P>(x)); }
P _Rb_tree_decrement(P x) throw() { return dec(x); }
C _Rb_tree_decrement(C x) throw() { return dec(const_cast<P>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, P x, P p, _Rb_tree_node_base &h) throw() {
    x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
P _Rb_tree_rebalance_for_erase(P const z, _Rb_tree_node_base &h) throw() {
    if (h._M_left == z) h._M_left = z->_M_right || z->_M_parent != &h ? inc(z) : &h;
    if (h._M_right == z) { if (z->_M_left) { P y = z->_M_left; while (y->_M_right) y = y->_M_right; h._M_right = y; } else h._M_right = z->_M_parent; }
    if (h._M_left == z) h._M_left = &h;
    auto put = [&](P o, P n) { if (o->_M_parent == &h) h._M_parent = n; else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n; if (n) n->_M_parent = o->_M_parent; };
    if (!z->_M_left) put(z, z->_M_right);
    else if (!z->_M_right) put(z, z->_M_left);
    else { P y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { put(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } put(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
    return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; auto *t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
}
}
