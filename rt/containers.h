// The out-of-line parts of std::list and std::map. For the engine these are the library itself; natively they replace the
// uninstrumented ones of libstdc++ under ThreadSanitizer, so that it sees the same accesses.
#pragma once
#include <cstddef>
#include <list>
#include <map>
namespace std {
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base *first, _List_node_base *last) noexcept {
  if (this != last) {
    last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first;
    _List_node_base *t = _M_prev; _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
  }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { _List_node_base *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) {
      std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
      x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y;
    } else {
      y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x;
    }
  } else if (y._M_next != &y) {
    x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y;
  }
}
} // namespace __detail
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
static void rb_rotate(_Rb_tree_node_base *x, _Rb_tree_node_base *&root, bool toLeft) {
  _Rb_tree_node_base *y;
  if (toLeft) { y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; }
  else { y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; }
  y->_M_parent = x->_M_parent;
  if (x == root) root = y;
  else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
  else x->_M_parent->_M_right = y;
  if (toLeft) y->_M_left = x; else y->_M_right = x;
  x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
  _Rb_tree_node_base *&root = h._M_parent;
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    _Rb_tree_node_base *xp = x->_M_parent, *xpp = xp->_M_parent;
    bool l = xp == xpp->_M_left;
    _Rb_tree_node_base *y = l ? xpp->_M_right : xpp->_M_left;
    if (y && y->_M_color == _S_red) { xp->_M_color = y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
    else {
      if (x == (l ? xp->_M_right : xp->_M_left)) { x = xp; rb_rotate(x, root, l); }
      x->_M_parent->_M_color = _S_black;
      xpp->_M_color = _S_red;
      rb_rotate(xpp, root, !l);
    }
  }
  root->_M_color = _S_black;
}
// (a plain binary-tree removal: colours may get out of balance, the order never does)
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) noexcept {
  auto replace = [&](_Rb_tree_node_base *o, _Rb_tree_node_base *n) {
    _Rb_tree_node_base *p = o->_M_parent;
    if (h._M_parent == o) h._M_parent = n;
    else if (p->_M_left == o) p->_M_left = n;
    else p->_M_right = n;
    if (n) n->_M_parent = p;
  };
  if (!z->_M_left || !z->_M_right) {
    _Rb_tree_node_base *c = z->_M_left ? z->_M_left : z->_M_right;
    _Rb_tree_node_base *par = z->_M_parent;
    replace(z, c);
    if (h._M_left == z) { if (!c) h._M_left = par; else { while (c->_M_left) c = c->_M_left; h._M_left = c; } }
    c = z->_M_left ? z->_M_left : z->_M_right;
    if (h._M_right == z) { if (!c) h._M_right = par; else { while (c->_M_right) c = c->_M_right; h._M_right = c; } }
    if (h._M_parent) h._M_parent->_M_color = _S_black;
    return z;
  }
  _Rb_tree_node_base *y = z->_M_right;
  while (y->_M_left) y = y->_M_left;
  if (y != z->_M_right) {
    replace(y, y->_M_right);
    y->_M_right = z->_M_right; y->_M_right->_M_parent = y;
  }
  replace(z, y);
  y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  y->_M_color = z->_M_color;
  h._M_parent->_M_color = _S_black;
  return z;
}
} // namespace std
