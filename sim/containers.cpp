// The parts of std::list, std::map and std::set that the C++ library keeps out of line, so that their steps are
// scheduling points as well: without them linking a list node or rebalancing a tree would be one atomic step.
// Same names, same effects, compiled with the same instrumentation as the code under test.
#include <list>
#include <map>
#include <utility>

namespace std {
namespace __detail {
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept
{
	if (x._M_next != &x) {
		if (y._M_next != &y) {
			std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
			x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y;
		} else {
			y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y;
			x._M_next = x._M_prev = &x;
		}
	} else if (y._M_next != &y) {
		x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x;
		y._M_next = y._M_prev = &y;
	}
}
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept
{
	if (this == last) return;
	last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
	_List_node_base *const tmp = this->_M_prev;
	this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
}
void _List_node_base::_M_reverse() noexcept
{
	_List_node_base *tmp = this;
	do { std::swap(tmp->_M_next, tmp->_M_prev); tmp = tmp->_M_prev; } while (tmp != this);
}
void _List_node_base::_M_hook(_List_node_base *const position) noexcept
{
	this->_M_next = position; this->_M_prev = position->_M_prev;
	position->_M_prev->_M_next = this; position->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
	_List_node_base *const next = this->_M_next, *const prev = this->_M_prev;
	prev->_M_next = next; next->_M_prev = prev;
}
}

typedef _Rb_tree_node_base *N;
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw()
{
	if (x->_M_right) {
		x = x->_M_right;
		while (x->_M_left) x = x->_M_left;
	} else {
		N y = x->_M_parent;
		while (x == y->_M_right) { x = y; y = y->_M_parent; }
		if (x->_M_right != y) x = y;
	}
	return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw()
{
	if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
	else if (x->_M_left) {
		N y = x->_M_left;
		while (y->_M_right) y = y->_M_right;
		x = y;
	} else {
		N y = x->_M_parent;
		while (x == y->_M_left) { x = y; y = y->_M_parent; }
		x = y;
	}
	return x;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
static void left(N x, N &root)
{
	N y = x->_M_right;
	x->_M_right = y->_M_left;
	if (y->_M_left) y->_M_left->_M_parent = x;
	y->_M_parent = x->_M_parent;
	if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
	y->_M_left = x; x->_M_parent = y;
}
static void right(N x, N &root)
{
	N y = x->_M_left;
	x->_M_left = y->_M_right;
	if (y->_M_right) y->_M_right->_M_parent = x;
	y->_M_parent = x->_M_parent;
	if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
	y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool insert_left, N x, N p, _Rb_tree_node_base &header) throw()
{
	N &root = header._M_parent;
	x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
	if (insert_left) {
		p->_M_left = x;
		if (p == &header) { header._M_parent = x; header._M_right = x; }
		else if (p == header._M_left) header._M_left = x;
	} else {
		p->_M_right = x;
		if (p == header._M_right) header._M_right = x;
	}
	while (x != root && x->_M_parent->_M_color == _S_red) {
		N const xpp = x->_M_parent->_M_parent;
		if (x->_M_parent == xpp->_M_left) {
			N const y = xpp->_M_right;
			if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
			else {
				if (x == x->_M_parent->_M_right) { x = x->_M_parent; left(x, root); }
				x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; right(xpp, root);
			}
		} else {
			N const y = xpp->_M_left;
			if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
			else {
				if (x == x->_M_parent->_M_left) { x = x->_M_parent; right(x, root); }
				x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; left(xpp, root);
			}
		}
	}
	root->_M_color = _S_black;
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(N const z, _Rb_tree_node_base &header) throw()
{
	N &root = header._M_parent, &leftmost = header._M_left, &rightmost = header._M_right;
	N y = z, x = 0, xp = 0;
	if (!y->_M_left) x = y->_M_right;
	else if (!y->_M_right) x = y->_M_left;
	else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
	if (y != z) {
		z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
		if (y != z->_M_right) {
			xp = y->_M_parent;
			if (x) x->_M_parent = y->_M_parent;
			y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y;
		} else xp = y;
		if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
		y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z;
	} else {
		xp = y->_M_parent;
		if (x) x->_M_parent = y->_M_parent;
		if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
		if (leftmost == z) { if (!z->_M_right) leftmost = z->_M_parent; else { N m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
		if (rightmost == z) { if (!z->_M_left) rightmost = z->_M_parent; else { N m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
	}
	if (y->_M_color != _S_red) {
		while (x != root && (!x || x->_M_color == _S_black)) {
			if (x == xp->_M_left) {
				N w = xp->_M_right;
				if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; left(xp, root); w = xp->_M_right; }
				if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
				else {
					if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; right(w, root); w = xp->_M_right; }
					w->_M_color = xp->_M_color; xp->_M_color = _S_black;
					if (w->_M_right) w->_M_right->_M_color = _S_black;
					left(xp, root); break;
				}
			} else {
				N w = xp->_M_left;
				if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; right(xp, root); w = xp->_M_left; }
				if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
				else {
					if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; left(w, root); w = xp->_M_left; }
					w->_M_color = xp->_M_color; xp->_M_color = _S_black;
					if (w->_M_left) w->_M_left->_M_color = _S_black;
					right(xp, root); break;
				}
			}
		}
		if (x) x->_M_color = _S_black;
	}
	return y;
}
unsigned int _Rb_tree_black_count(const _Rb_tree_node_base *node, const _Rb_tree_node_base *root) throw()
{
	unsigned n = 0;
	if (node) for (;;) { if (node->_M_color == _S_black) n++; if (node == root) break; node = node->_M_parent; }
	return n;
}
}

// std::string likewise.
#include <string>
template class std::basic_string<char>;
