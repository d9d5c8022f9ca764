// Definitions of the libstdc++ container helpers that live in the shared library, for the verifier's
// view of a unit only. The tree is kept as a plain ordered binary tree: balancing does not change what
// a map or set contains or the order it is walked in.
#pragma once
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>

namespace std {

void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
{
	x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
	if (left) {
		p->_M_left = x;
		if (p == &h) { h._M_parent = x; h._M_right = x; }
		else if (p == h._M_left) h._M_left = x;
	}
	else {
		p->_M_right = x;
		if (p == h._M_right) h._M_right = x;
	}
}

_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
{
	if (x->_M_right) {
		x = x->_M_right;
		while (x->_M_left) x = x->_M_left;
		return x;
	}
	_Rb_tree_node_base* y = x->_M_parent;
	while (x == y->_M_right) { x = y; y = y->_M_parent; }
	return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }

_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
{
	// the end node: recognised because nothing else is its grandparent's child in this way
	if (x->_M_parent && x->_M_parent->_M_parent == x && x->_M_color == _S_red && x->_M_left && (x->_M_parent != x)) {
		_Rb_tree_node_base* root = x->_M_parent;
		_Rb_tree_node_base* r = root;
		while (r->_M_right) r = r->_M_right;
		if (x->_M_right == r) return r;
	}
	if (x->_M_left) {
		_Rb_tree_node_base* y = x->_M_left;
		while (y->_M_right) y = y->_M_right;
		return y;
	}
	_Rb_tree_node_base* y = x->_M_parent;
	while (x == y->_M_left) { x = y; y = y->_M_parent; }
	return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }

_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw()
{
	_Rb_tree_node_base* prev_min = 0;
	if (h._M_left == z) prev_min = _Rb_tree_increment(z);
	_Rb_tree_node_base* prev_max = 0;
	if (h._M_right == z) prev_max = z == h._M_left ? &h : _Rb_tree_decrement(z);
	_Rb_tree_node_base* rep;
	if (!z->_M_left) rep = z->_M_right;
	else if (!z->_M_right) rep = z->_M_left;
	else {
		_Rb_tree_node_base* s = z->_M_right;
		while (s->_M_left) s = s->_M_left;
		if (s->_M_parent != z) {
			s->_M_parent->_M_left = s->_M_right;
			if (s->_M_right) s->_M_right->_M_parent = s->_M_parent;
			s->_M_right = z->_M_right; z->_M_right->_M_parent = s;
		}
		s->_M_left = z->_M_left; z->_M_left->_M_parent = s;
		rep = s;
	}
	_Rb_tree_node_base* p = z->_M_parent;
	if (rep) rep->_M_parent = p;
	if (p == &h) h._M_parent = rep;
	else if (p->_M_left == z) p->_M_left = rep;
	else p->_M_right = rep;
	if (prev_min) h._M_left = prev_min;
	if (prev_max) h._M_right = prev_max;
	return z;
}

// hash tables: one bucket
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t) const { return 1; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const { return { false, 0 }; }
}
}

template class std::basic_string<char>;
