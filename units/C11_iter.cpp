// C11: iterators, searching and the public interface of trees and maps, over every
// balanced shape up to a stated height (bounded: the recursion under them is proved in
// C11_avl and C11_root for trees of any height)
#include "vp.h"
#include <exception>
#include <stdlib.h>
#include <new>
#define protected public
#define private public
#include "lightspeed/base/types.h"
#include "lightspeed/base/containers/map.tcc"
#include "lightspeed/base/containers/set.h"
#undef private
#undef protected
#include "lightspeed/base/exceptions/iterator.h"
#include "lightspeed/base/exceptions/throws.tcc"
using namespace LightSpeed;
//@function AvlTreeNode::Iterator (constructors, initPath, initPathSearch, goNext, peek, getNext, setDir), AVLTree (insert, erase, remove, seek, find, clear, copy, assignment, swap, size, getFwIter, getBkIter), AvlTreeBasic, Map (insert, erase, find, seek, replace, operators [], ())
static int live;
class Mem: public IRuntimeAlloc {
public:
	virtual void *alloc(natural n) { live++; return ::operator new(n); }
	virtual void dealloc(void *p, natural) { live--; ::operator delete(p); }
	virtual void *alloc(natural n, IRuntimeAlloc *&o) { o = this; return alloc(n); }
	virtual IRuntimeAlloc *clone() const { return 0; }
	virtual IRuntimeAlloc *clone(IRuntimeAlloc &) const { return 0; }
	virtual natural getObjectSize() const { return sizeof(*this); }
	virtual bool isCloneable() const { return false; }
	virtual bool isTypeOf(const std::type_info &) const { return false; }
};
typedef std::less<int> L;
typedef Map<int,int> M; typedef M::Tree T; typedef T::Node N;
struct Ref { int k[64]; int n; };
static N *build(M &m, int h, Ref &r, int lh) {
	// a tree of height exactly h
	if (h == 0) return 0;
	int b = h == 1 ? 0 : (int)vp_choice(3) - 1;
	N *l = build(m, b > 0 ? h - 2 : h - 1, r, 0);
	int key = 2 * r.n + 1; r.k[r.n++] = key;
	N *n = m.tree.allocFactory->createInstanceUsing<N,M::KeyValue>(M::KeyValue(key, 100 + key));
	N *rt = build(m, b < 0 ? h - 2 : h - 1, r, 0);
	n->left = l; n->right = rt; n->balance = b; return n;
}
static int g_maxh = 3; static int maxh() { return g_maxh; }
static void make(M &m, Ref &r) {
	r.n = 0; int h = vp_choice(maxh() + 1);
	m.tree.tree = build(m, h, r, 0); m.tree.count = r.n;
}
static int check(const N *n, int *v, int &c) {
	if (!n) return 0;
	int l = check(n->left, v, c); v[c++] = n->data.key; int r = check(n->right, v, c);
	vp_assert(r - l == n->balance, "the balance of a node is the difference of the heights of its subtrees");
	vp_assert(n->balance >= -1 && n->balance <= 1, "balanced within one");
	return (l > r ? l : r) + 1;
}
static void equals(const M &m, const Ref &r) {
	int v[64]; int c = 0; check(m.tree.tree, v, c);
	vp_assert(c == r.n, "exactly the elements"); vp_assert(m.size() == (natural)r.n && m.length() == (natural)r.n && m.empty() == (r.n == 0), "and their count");
	for (int i = 0; i < r.n; i++) vp_assert(v[i] == r.k[i], "in order");
}
static int rank(const Ref &r, int k) { int i = 0; while (i < r.n && r.k[i] < k) i++; return i; }
static bool has(const Ref &r, int k) { int i = rank(r, k); return i < r.n && r.k[i] == k; }
static void add(Ref &r, int k) { int i = rank(r, k); for (int j = r.n; j > i; j--) r.k[j] = r.k[j - 1]; r.k[i] = k; r.n++; }
static void del(Ref &r, int k) { int i = rank(r, k); for (int j = i; j + 1 < r.n; j++) r.k[j] = r.k[j + 1]; r.n--; }
// from position i in direction d the iterator gives the rest in order, then nothing
static void walk(M::Iterator it, const Ref &r, int i, bool back) {
	while (back ? i >= 0 : i < r.n) {
		vp_assert(it.hasItems(), "the iterator has all the items");
		vp_assert(it.peek().key == r.k[i], "in order"); vp_assert(it.getNext().key == r.k[i], "in order");
		i += back ? -1 : 1;
	}
	vp_assert(!it.hasItems(), "and no more");
	bool thrown = false; try { it.getNext(); } catch (...) { thrown = true; }
	vp_assert(thrown, "reading past the end is refused");
}
#define OPEN live = 0; Mem *mem = new Mem; { M m((SharedPtr<IRuntimeAlloc>(mem))); Ref r; make(m, r);
#define CLOSE } vp_assert(live == 0, "every node is released");
//@harness c11_walk kind=bounded bound=trees_of_height_up_to_3
VP_HARNESS(c11_walk) {
	OPEN
	walk(m.getFwIter(), r, 0, false); walk(m.getBkIter(), r, r.n - 1, true);
	if (r.n) {       // turning round
		int at = vp_choice(r.n); bool b = vp_choice(2);
		M::Iterator it = b ? m.getBkIter() : m.getFwIter();
		for (int i = 0; i < at; i++) it.getNext();
		int p = b ? r.n - 1 - at : at;
		vp_assert(it.setDir(b ? Direction::forward : Direction::backward), "direction changed");
		walk(it, r, p, !b); vp_cover("turned");
	}
	CLOSE
}
//@harness c11_seek kind=bounded bound=trees_of_height_up_to_3
VP_HARNESS(c11_seek) {
	OPEN
	int k = vp_choice(2 * r.n + 2); bool in = has(r, k); int at = rank(r, k); bool f = !in;
	walk(m.seek(k, &f), r, at, false); vp_assert(f == in, "found exactly when there");
	walk(m.seek(k), r, at, false);
	f = !in; walk(m.seek(k, &f, Direction::backward), r, in ? at : at - 1, true); vp_assert(f == in, "found exactly when there");
	const M &cm = m; const int *v = cm.find(k); int *w = m.find(k);
	vp_assert((v != 0) == in && v == w, "found exactly when there"); if (v) vp_assert(*v == 100 + k, "the value of the key");
	bool t = false; int x = 0; try { x = cm[k]; } catch (NotFoundException &) { t = true; }
	vp_assert(t == !in && (t || x == 100 + k), "the operator [] throws exactly when the key is not there");
	if (in) vp_cover("there"); else vp_cover("not there");
	CLOSE
}
//@harness c11_insert_erase kind=bounded bound=trees_of_height_up_to_3
VP_HARNESS(c11_insert_erase) {
	OPEN
	int k = vp_choice(2 * r.n + 2); bool in = has(r, k);
	int v = 7; bool ex = !in;
	switch (vp_choice(8)) {
	case 0: { M::Iterator it = m.insert(k, v, &ex); vp_assert(ex == in, "reported whether it was there"); if (!in) add(r, k); else v = 100 + k; vp_assert(it.hasItems(), "an iterator to it"); vp_assert(it.peek().value == v, "with its value; the one already there stays"); walk(it, r, rank(r, k), false); vp_cover("insert"); break; }
	case 1: { m.insert(k, v); if (!in) add(r, k); else v = 100 + k; vp_assert(*m.find(k) == v, "with its value; the one already there stays"); break; }
	case 2: { M::Iterator it = m.replace(k, v); if (!in) add(r, k); vp_assert(it.peek().value == v && *m.find(k) == v, "replaced"); walk(it, r, rank(r, k), false); break; }
	case 3: { int &x = m(k); vp_assert(x == (in ? 100 + k : 0), "the value there, or a new one"); if (!in) add(r, k); x = 5; vp_assert(*m.find(k) == 5, "a reference"); break; }
	case 4: { vp_assert(m.erase(k) == in, "erased exactly when there"); if (in) del(r, k); vp_cover("erase"); break; }
	case 5: { if (!in) break; bool back = vp_choice(2); M::Iterator it = m.seek(k, 0, back ? Direction::backward : Direction::forward); m.erase(it); int p = rank(r, k); del(r, k); walk(it, r, back ? p - 1 : p, back); vp_cover("erase by iterator"); break; }
	case 6: { N *n = m.tree.allocFactory->createInstanceUsing<N,M::KeyValue>(M::KeyValue(k, v)); bool *e = vp_choice(2) ? &ex : 0; m.tree.insert(n, e); vp_assert(!e || ex == in, "reported whether it was there"); if (!in) add(r, k); else m.tree.allocFactory->destroyInstance(n); break; }
	case 7: { M::KeyValue kv(k, 0); N *n = m.tree.remove(N::getSearchNode(kv)); vp_assert((n != 0) == in, "taken out exactly when there"); if (n) { vp_assert(n->data.key == k && n->data.value == 100 + k, "the node itself"); m.tree.allocFactory->destroyInstance(n); del(r, k); } break; }
	}
	equals(m, r);
	vp_assert(live == r.n, "as many nodes as elements");
	for (int i = 0; i < r.n; i++) if (r.k[i] != k) vp_assert(*m.find(r.k[i]) == 100 + r.k[i], "the other values stay");
	CLOSE
}
//@harness c11_whole kind=bounded bound=trees_of_height_up_to_3
VP_HARNESS(c11_whole) {
	OPEN
	Ref none; none.n = 0;
	switch (vp_choice(5)) {
	case 0: { M c(m); equals(c, r); equals(m, r); for (int i = 0; i < r.n; i++) vp_assert(*c.find(r.k[i]) == 100 + r.k[i], "values are copied"); c.clear(); equals(c, none); equals(m, r); vp_cover("copy"); break; }
	case 1: { M c((SharedPtr<IRuntimeAlloc>(new Mem))); c.insert(50, 1); c.insert(40, 1); c = m; equals(c, r); equals(m, r); vp_assert(live == 2 * r.n, "the former elements are released"); break; }
	case 2: { m = *&m; equals(m, r); break; }
	case 3: { m.clear(); equals(m, none); vp_assert(live == 0, "every node is released"); m.insert(3, 3); add(none, 3); equals(m, none); break; }
	case 4: { M c((SharedPtr<IRuntimeAlloc>(new Mem))); c.insert(50, 1); m.swap(c); add(none, 50); equals(m, none); equals(c, r); break; }
	}
	CLOSE
}

// the tree of nodes owned by the caller
typedef AvlTreeNode<int> BN; struct BCmp { bool operator()(const BN *a, const BN *b) const { return a->data < b->data; } };
typedef AvlTreeBasic<BCmp,int> B;
struct PoolNode: BN { PoolNode():BN(0) {} };
static int erased; struct Er { void operator()(BN *) const { erased++; } };
static BN *bbuild(struct PoolNode *pool, int h, Ref &r) {
	if (h == 0) return 0;
	int b = h == 1 ? 0 : (int)vp_choice(3) - 1;
	BN *l = bbuild(pool, b > 0 ? h - 2 : h - 1, r);
	BN *n = pool + r.n; n->data = 2 * r.n + 1; r.k[r.n] = n->data; r.n++;
	n->right = bbuild(pool, b < 0 ? h - 2 : h - 1, r); n->left = l; n->balance = b; return n;
}
static void bequals(const B &b, const Ref &r, bool back) {
	vp_assert(b.size() == (natural)r.n && b.empty() == (r.n == 0), "the count of nodes");
	B::Iterator it = back ? b.getBkIter() : b.getFwIter();
	for (int i = 0; i < r.n; i++) { vp_assert(it.hasItems(), "all the nodes"); vp_assert(it.getNext()->data == r.k[back ? r.n - 1 - i : i], "in order"); }
	vp_assert(!it.hasItems(), "and no more");
}
//@harness c11_basic kind=bounded bound=trees_of_height_up_to_3
VP_HARNESS(c11_basic) {
	B b; Ref r; r.n = 0; PoolNode pool[16];
	b.tree = bbuild(pool, vp_choice(4), r); b.count = r.n;
	int k = vp_choice(2 * r.n + 2); bool in = has(r, k); int at = rank(r, k); BN key(k);
	BN *there = in ? pool + (k - 1) / 2 : 0;
	switch (vp_choice(4)) {
	case 0: { bool ex = !in; BN *nd = pool + 15; nd->data = k; bool *e = vp_choice(2) ? &ex : 0; B::Iterator it = b.insert(nd, e); vp_assert(!e || ex == in, "reported whether it was there"); if (!in) { add(r, k); there = nd; }
		for (int i = at; i < r.n; i++) { vp_assert(it.hasItems() && it.peek()->data == r.k[i], "an iterator to the node"); BN *p = it.getNext(); if (i == at) vp_assert(p == there, "an iterator to the node"); } vp_assert(!it.hasItems(), "and no more"); break; }
	case 1: { vp_assert(b.find(key) == there, "found exactly when there"); break; }
	case 2: { vp_assert(b.remove(key) == there, "taken out exactly when there"); if (in) del(r, k); break; }
	case 3: { bool f = !in; B::Iterator it = b.seek(key, Direction::forward, &f); vp_assert(f == in, "found exactly when there"); if (in) { vp_assert(b.remove(it) == there, "the node of the iterator"); del(r, k); } break; }
	}
	bequals(b, r, false); bequals(b, r, true); vp_cover("done");
	erased = 0; b.clear(Er()); vp_assert(erased == r.n && b.empty() && b.size() == 0, "cleared");
}
//@harness c11_walk4 kind=bounded bound=trees_of_height_up_to_4 tier=thorough
VP_HARNESS(c11_walk4) { g_maxh = 4; OPEN walk(m.getFwIter(), r, 0, false); walk(m.getBkIter(), r, r.n - 1, true); CLOSE }
//@harness c11_seek4 kind=bounded bound=trees_of_height_up_to_4 tier=thorough
VP_HARNESS(c11_seek4) {
	g_maxh = 4; OPEN
	int k = vp_choice(2 * r.n + 2); bool in = has(r, k); int at = rank(r, k); bool f = !in;
	walk(m.seek(k, &f), r, at, false); vp_assert(f == in, "found exactly when there");
	f = !in; walk(m.seek(k, &f, Direction::backward), r, in ? at : at - 1, true); vp_assert(f == in, "found exactly when there");
	CLOSE
}
// histories of operations on larger trees (only run natively, when something above failed)
//@harness c11_history kind=search
VP_HARNESS(c11_history) {
	live = 0; { M m((SharedPtr<IRuntimeAlloc>(new Mem))); Ref r; r.n = 0; int n = vp_choice(120);
	for (int i = 0; i < n; i++) {
		int k = vp_choice(50); bool in = has(r, k);
		if (vp_choice(3)) { bool ex; M::Iterator it = m.insert(k, 100 + k, &ex); vp_assert(ex == in, "reported whether it was there"); if (!in) add(r, k); walk(it, r, rank(r, k), false); }
		else if (in && vp_choice(2)) { M::Iterator it = m.seek(k); m.erase(it); int p = rank(r, k); del(r, k); walk(it, r, p, false); }
		else { vp_assert(m.erase(k) == in, "erased exactly when there"); if (in) del(r, k); }
		equals(m, r);
	} CLOSE
}
