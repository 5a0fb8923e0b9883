// The parts of std::map, std::set and std::list that live inside libstdc++.so, defined again so that they are compiled with
// the same instrumentation as the code that uses them: otherwise their memory accesses would be invisible to the engine.
#include <list>
#include <map>
namespace std {
typedef _Rb_tree_node_base N;
static N* next(N* x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  N* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
  return x->_M_right != y ? y : x;
}
static N* before(N* x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  N* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
N* _Rb_tree_increment(N* x) throw() { return next(x); }
const N* _Rb_tree_increment(const N* x) throw() { return next(const_cast<N*>(x)); }
N* _Rb_tree_decrement(N* x) throw() { return before(x); }
const N* _Rb_tree_decrement(const N* x) throw() { return before(const_cast<N*>(x)); }
static void rotate(N* x, N*& root, bool left) {      // x's child on the other side takes its place
  N* y = left ? x->_M_right : x->_M_left; N* mid = left ? y->_M_left : y->_M_right;
  (left ? x->_M_right : x->_M_left) = mid; if (mid) mid->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
  (left ? y->_M_left : y->_M_right) = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, N* x, N* p, N& h) throw() {
  N*& root = h._M_parent; x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    N* const g = x->_M_parent->_M_parent; const bool l = x->_M_parent == g->_M_left; N* const u = l ? g->_M_right : g->_M_left;
    if (u && u->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; u->_M_color = _S_black; g->_M_color = _S_red; x = g; continue; }
    if (x == (l ? x->_M_parent->_M_right : x->_M_parent->_M_left)) { x = x->_M_parent; rotate(x, root, l); }
    x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotate(g, root, !l);
  }
  root->_M_color = _S_black;
}
N* _Rb_tree_rebalance_for_erase(N* const z, N& h) throw() {
  N*& root = h._M_parent; N *y = z, *x, *xp;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; _Rb_tree_color c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c; y = z;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (h._M_left == z) { if (!z->_M_right) h._M_left = z->_M_parent; else { N* m = x; while (m->_M_left) m = m->_M_left; h._M_left = m; } }
    if (h._M_right == z) { if (!z->_M_left) h._M_right = z->_M_parent; else { N* m = x; while (m->_M_right) m = m->_M_right; h._M_right = m; } }
  }
  if (y->_M_color == _S_red) return y;
  while (x != root && (!x || x->_M_color == _S_black)) {
    const bool l = x == xp->_M_left; N* w = l ? xp->_M_right : xp->_M_left;
    if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotate(xp, root, l); w = l ? xp->_M_right : xp->_M_left; }
    N *nr = l ? w->_M_left : w->_M_right, *fr = l ? w->_M_right : w->_M_left;
    if ((!nr || nr->_M_color == _S_black) && (!fr || fr->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; continue; }
    if (!fr || fr->_M_color == _S_black) { nr->_M_color = _S_black; w->_M_color = _S_red; rotate(w, root, !l); w = l ? xp->_M_right : xp->_M_left; fr = l ? w->_M_right : w->_M_left; }
    w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (fr) fr->_M_color = _S_black; rotate(xp, root, l); break;
  }
  if (x) x->_M_color = _S_black;
  return y;
}
namespace __detail {
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  bool ex = x._M_next == &x, ey = y._M_next == &y; _List_node_base *a = x._M_next, *b = x._M_prev, *c = y._M_next, *d = y._M_prev;
  if (ey) x._M_next = x._M_prev = &x; else { x._M_next = c; x._M_prev = d; c->_M_prev = &x; d->_M_next = &x; }
  if (ex) y._M_next = y._M_prev = &y; else { y._M_next = a; y._M_prev = b; a->_M_prev = &y; b->_M_next = &y; }
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this == last) return;
  _List_node_base *tail = last->_M_prev, *b = first->_M_prev, *mine = _M_prev;
  b->_M_next = last; last->_M_prev = b; mine->_M_next = first; first->_M_prev = mine; tail->_M_next = this; _M_prev = tail;
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
}  // namespace __detail
}  // namespace std
#ifdef NODES_SELFTEST
#include <cstdio>
#include <cstdlib>
#include <set>
static int check(const std::_Rb_tree_node_base* n) { if (!n) return 1; int l = check(n->_M_left), r = check(n->_M_right); if (l != r || l < 0) { puts("black height"); exit(1); } if (n->_M_color == 0 && ((n->_M_left && n->_M_left->_M_color == 0) || (n->_M_right && n->_M_right->_M_color == 0))) { puts("red red"); exit(1); } return l + n->_M_color; }
int main() {
  for (int seed = 0; seed < 400; seed++) {
    srand(seed); std::set<int> s; bool in[64] = {}; int cnt = 0;
    for (int i = 0; i < 600; i++) {
      int k = rand() % 64; if (rand() % (seed % 5 + 2)) { cnt += !in[k]; in[k] = true; s.insert(k); } else { cnt -= in[k]; in[k] = false; s.erase(k); }
      if ((int)s.size() != cnt) { puts("size"); return 1; } int j = 0; for (int x : s) { while (!in[j]) j++; if (x != j++) { puts("order"); return 1; } } int q = 63; for (auto it = s.rbegin(); it != s.rend(); ++it) { while (!in[q]) q--; if (*it != q--) { puts("reverse"); return 1; } }
      if (!s.empty()) { check(reinterpret_cast<const std::_Rb_tree_node_base*>(s.find(*s.begin())._M_node)->_M_parent ? s.end()._M_node->_M_parent : nullptr); if (s.end()._M_node->_M_left != s.begin()._M_node) { puts("leftmost"); return 1; } }
    }
  }
  std::list<int> a = {1, 2, 3}, b = {4, 5}; a.splice(++a.begin(), b, b.begin()); a.reverse(); a.swap(b); std::list<int> w = {3, 2, 4, 1}; if (b != w || a.size() != 1) { puts("list"); return 1; } a.swap(b); b.clear(); a.swap(b); if (!a.empty() || b != w) { puts("swap"); return 1; }
  puts("ok");
}
#endif
