// Proof mode: bodies for the out-of-line parts of libstdc++'s associative containers (their contracts: binary search tree with
// the order kept, hash table that never needs to grow). Balancing and bucket counts are not observable.
#pragma once
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#ifdef VX_PROOF
namespace std {
  _Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
    if (x->_M_right) {
      x = x->_M_right;
      while (x->_M_left) x = x->_M_left;
      return x;
    }
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_right) {
      x = y;
      y = y->_M_parent;
    }
    if (x->_M_right != y) x = y;
    return x;
  }
  const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
  _Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) {
      _Rb_tree_node_base *y = x->_M_left;
      while (y->_M_right) y = y->_M_right;
      return y;
    }
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_left) {
      x = y;
      y = y->_M_parent;
    }
    return y;
  }
  const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
  void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
    x->_M_parent = p;
    x->_M_left   = nullptr;
    x->_M_right  = nullptr;
    x->_M_color  = _S_black;
    if (left) {
      p->_M_left = x;
      if (p == &h) {
        h._M_parent = x;
        h._M_right  = x;
      } else if (p == h._M_left)
        h._M_left = x;
    } else {
      p->_M_right = x;
      if (p == h._M_right) h._M_right = x;
    }
  }
  _Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
    auto replace = [&](_Rb_tree_node_base *a, _Rb_tree_node_base *b) {
      if (h._M_parent == a)
        h._M_parent = b;
      else if (a->_M_parent->_M_left == a)
        a->_M_parent->_M_left = b;
      else
        a->_M_parent->_M_right = b;
      if (b) b->_M_parent = a->_M_parent;
    };
    if (h._M_left == z) h._M_left = _Rb_tree_increment(z);
    if (h._M_right == z) h._M_right = _Rb_tree_decrement(z);
    if (!z->_M_left)
      replace(z, z->_M_right);
    else if (!z->_M_right)
      replace(z, z->_M_left);
    else {
      _Rb_tree_node_base *y = z->_M_right;
      while (y->_M_left) y = y->_M_left;
      if (y->_M_parent != z) {
        replace(y, y->_M_right);
        y->_M_right            = z->_M_right;
        y->_M_right->_M_parent = y;
      }
      replace(z, y);
      y->_M_left            = z->_M_left;
      y->_M_left->_M_parent = y;
    }
    if (!h._M_parent) {
      h._M_left  = &h;
      h._M_right = &h;
    }
    return z;
  }
  namespace __detail {
    std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { return n; }
    std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t, std::size_t, std::size_t) const { return {false, 0}; }
  } // namespace __detail
} // namespace std
#endif
