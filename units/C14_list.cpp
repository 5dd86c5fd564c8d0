// C14: the linked list: every operation at an arbitrary position of a list of any length
#include "vp.h"
#include <exception>
#include <stdlib.h>
#include <new>
#define protected public
#define private public
#include "lightspeed/base/types.h"
#include "lightspeed/base/memory/refCntPtr.cpp"
#include "lightspeed/base/containers/linkedList.h"
#undef private
#undef protected
#include "lightspeed/base/exceptions/iterator.h"
#include "lightspeed/base/exceptions/throws.tcc"
using namespace LightSpeed;
//@function LinkedList::insertFirst, insertAfter, insertBefore, add (value and node), removeFirst, eraseFirst, remove, erase, getFirst, getLast (both), empty, swap, move constructor, getItem, Iterator (getNext, peek, getPrev, hasItems, equalTo)
//@assume an iterator is used only while the item before it is the one it has seen (an insertion through another iterator may separate them)
struct V { uint64_t v; V(uint64_t v):v(v) { n++; } V(const V &o); ~V() { v = 0xdead; n--; } static int64_t n; static bool maythrow; };
int64_t V::n; bool V::maythrow;
V::V(const V &o):v(o.v) { if (maythrow && vp_bool()) { maythrow = false; throw 1; } n++; }
typedef LinkedList<V> List; typedef List::ListItem Node; typedef List::Iterator Iter;
struct Al: IRuntimeAlloc {
	Node *got, *freed; int64_t live; bool fail, any;
	Al():got(0),freed(0),live(0),fail(false),any(false) {}
	virtual void *alloc(natural n) { vp_assert(n == sizeof(Node), "a node is allocated"); if (fail && vp_bool()) { fail = false; throw std::bad_alloc(); } live++; return got = (Node *)malloc(n); }
	virtual void *alloc(natural n, IRuntimeAlloc *&o) { o = this; return alloc(n); }
	virtual void dealloc(void *p, natural n) { vp_assert(n == sizeof(Node), "a node is released"); if (!any) vp_assert(freed == 0, "one node is released"); freed = (Node *)p; live--; if (any) free(p); }
	virtual natural getObjectSize() const { return sizeof(*this); }
	virtual IRuntimeAlloc *clone(IRuntimeAlloc &) const { return 0; }
	virtual IRuntimeAlloc *clone() const { return 0; }
	virtual ~Al() {}
};
namespace LightSpeed { NodeAlloc createDefaultNodeAllocator() { vp_assert(false, "the allocator of the list is used"); return NodeAlloc(); } }
// cells: F first, P before the position, C at the position, N after it, Z last, X somewhere else
enum { F, P, C, N, Z, X, CELLS };
static Node *c[CELLS]; static Node *g_next[CELLS + 1]; static uint64_t g_val[CELLS + 1]; static Node *g_first, *g_last;
static Al *g_al; static List *g_l;
static Node *cell(uint64_t v) { Node *n = (Node *)malloc(sizeof(Node)); n->value.v = v; n->next = 0; return n; }
static int g_pos, g_rest;    // 0 first, 1 second, 2 third, 3 later, 4 behind the end; items after the position: 0, 1, 2 (more)
static void build() {
	g_al = new Al; g_l = new List(NodeAlloc(g_al)); V::n = 0; V::maythrow = false;
	for (int i = 0; i < CELLS; i++) c[i] = cell(vp_u64());
	g_pos = vp_choice(4); g_rest = vp_choice(3);
	g_first = g_pos == 0 ? c[C] : g_pos == 1 ? c[P] : c[F];
	if (g_pos >= 1) c[P]->next = c[C];
	if (g_pos == 2) c[F]->next = c[P];
	if (g_pos == 3) c[F]->next = c[X];
	g_last = g_rest == 0 ? c[C] : g_rest == 1 ? c[N] : c[Z];
	if (g_rest) c[C]->next = c[N];
	if (g_rest == 2) c[N]->next = vp_choice(2) ? c[X] : c[Z];
	g_l->first = g_first; g_l->last = g_last;
	for (int i = 0; i < CELLS; i++) { g_next[i] = c[i]->next; g_val[i] = c[i]->value.v; }
}
static void buildEmpty() { g_al = new Al; g_l = new List(NodeAlloc(g_al)); V::n = 0; V::maythrow = false; g_pos = -1; g_first = g_last = 0; for (int i = 0; i < CELLS; i++) { c[i] = cell(vp_u64()); g_next[i] = 0; g_val[i] = c[i]->value.v; } }
static Node *prevc() { return g_pos == 0 ? 0 : c[P]; }
static Iter at() { return Iter(c[C], prevc()); }
// the links which differ from the original ones are given in g_next, g_first and g_last
static void same(Node *gone = 0) {
	vp_assert(g_l->first == g_first, "the first item is right"); vp_assert(g_l->last == g_last, "the last item is right");
	for (int i = 0; i < CELLS; i++) if (c[i] != gone) { vp_assert(c[i]->next == g_next[i], "every item is followed by the right one"); vp_assert(c[i]->value.v == g_val[i], "the items keep their values"); }
}
static void inserted(const Iter &it, Node *x, Node *before, Node *after, uint64_t v) {
	vp_assert(x != 0, "a node was added"); vp_assert(x->value.v == v, "the new item has the value");
	vp_assert(x->next == after, "the new item is followed by the right one");
	vp_assert(it.cur == x, "the iterator points to the new item"); vp_assert(it.prev == before, "the iterator knows the item before the new one");
	if (before) { for (int i = 0; i < CELLS; i++) if (c[i] == before) g_next[i] = x; } else g_first = x;
	if (!after) g_last = x;
	same();
}
static Node *node(uint64_t v) { return g_al->got = new(malloc(sizeof(Node))) Node(V(v)); }
//@harness c14_insert
VP_HARNESS(c14_insert) {
	uint64_t v = vp_u64(); int op = vp_choice(4); bool raw = vp_choice(2);
	if (op >= 2 && vp_choice(2)) buildEmpty(); else build();
	if (op == 0) { Iter p = at(); Iter it = raw ? g_l->insertAfter(p, node(v)) : g_l->insertAfter(p, V(v)); inserted(it, g_al->got, c[C], g_next[C], v); vp_assert(p.cur == c[C], "the iterator stays"); vp_cover("after"); }
	else if (op == 1) { Iter p = at(); Node *b = prevc(); Iter it = raw ? g_l->insertBefore(p, node(v)) : g_l->insertBefore(p, V(v)); inserted(it, g_al->got, b, c[C], v); vp_assert(p.cur == c[C], "the iterator stays"); if (b) vp_assert(p.prev == g_al->got, "the iterator knows the item inserted before it"); vp_cover("before"); }
	else if (op == 2) { Node *f = g_first; Iter it = raw ? g_l->insertFirst(node(v)) : g_l->insertFirst(V(v)); inserted(it, g_al->got, 0, f, v); vp_cover("first"); }
	else { Node *b = g_last; Iter it = raw ? g_l->add(node(v)) : g_l->add(V(v)); inserted(it, g_al->got, b, 0, v); vp_cover("add"); }
	vp_assert(V::n == 1, "one value was made"); vp_assert(raw || g_al->live == 1, "one node was allocated"); vp_assert(g_al->freed == 0, "nothing is released");
}
//@harness c14_insert_throws
VP_HARNESS(c14_insert_throws) {
	int op = vp_choice(4); if (op >= 2 && vp_choice(2)) buildEmpty(); else build();
	{ V x(vp_u64()); bool thrown = false;
	if (vp_choice(2)) V::maythrow = true; else g_al->fail = true;
	try { switch (op) { case 0: g_l->insertAfter(at(), x); break; case 1: g_l->insertBefore(at(), x); break; case 2: g_l->insertFirst(x); break; default: g_l->add(x); } }
	catch (...) { thrown = true; }
	if (!thrown) return;
	vp_cover("threw"); same(); }
	vp_assert(V::n == 0, "no value is left"); vp_assert(g_al->live == 0, "the node is released");
}
static void unlinked() {
	if (g_pos == 0) g_first = g_next[C]; else g_next[P] = g_next[C];
	if (g_last == c[C]) g_last = prevc();
}
//@harness c14_remove
VP_HARNESS(c14_remove) {
	build(); unlinked(); Node *nx = g_next[C];
	if (vp_choice(2)) { Node *n = g_l->remove(at()); vp_assert(n == c[C], "the removed node is returned"); vp_assert(n->value.v == g_val[C], "with its value"); same(c[C]); vp_assert(g_al->freed == 0 && V::n == 0, "the removed node is not released"); vp_cover("removed"); }
	else { Iter it = g_l->erase(at()); same(c[C]); vp_assert(g_al->freed == c[C], "the erased node is released"); vp_assert(V::n == -1, "its value is destroyed once"); vp_assert(it.cur == nx && it.prev == prevc(), "the iterator points to the next item"); vp_cover("erased"); }
}
//@harness c14_remove_first
VP_HARNESS(c14_remove_first) {
	if (vp_choice(2)) { buildEmpty(); if (vp_choice(2)) vp_assert(g_l->removeFirst() == 0, "nothing to remove"); else g_l->eraseFirst(); same(); vp_assert(g_al->freed == 0, "nothing is released"); vp_cover("empty"); return; }
	build(); Node *f = g_first; int k = f == c[C] ? C : f == c[P] ? P : F;
	g_first = g_next[k]; if (g_last == f) g_last = 0;
	if (vp_choice(2)) { vp_assert(g_l->removeFirst() == f, "the removed node is returned"); same(f); vp_assert(g_al->freed == 0, "the removed node is not released"); }
	else { g_l->eraseFirst(); same(f); vp_assert(g_al->freed == f, "the first node is released"); vp_assert(V::n == -1, "its value is destroyed once"); vp_cover("erased first"); }
}
//@harness c14_remove_end
VP_HARNESS(c14_remove_end) {   // an iterator behind the last item
	build(); Iter e(0, g_last);
	if (vp_choice(2)) vp_assert(g_l->remove(e) == 0, "nothing to remove"); else vp_assert(!g_l->erase(e).hasItems(), "nothing to erase");
	same(); vp_assert(g_al->freed == 0, "nothing is released"); vp_assert(!e.hasItems(), "behind the end");
	bool thrown = false; try { if (vp_choice(2)) g_l->insertAfter(e, V(1)); else g_l->insertBefore(e, V(1)); } catch (...) { thrown = true; }
	vp_assert(thrown, "no position to insert at"); same(); vp_cover("end");
}
//@harness c14_access
VP_HARNESS(c14_access) {
	if (vp_choice(2)) {
		buildEmpty(); vp_assert(g_l->empty(), "empty"); bool thrown = false; const List *k = g_l;
		try { switch (vp_choice(5)) { case 0: g_l->getFirst(); break; case 1: g_l->getLast(); break; case 2: k->getFirst(); break; case 3: k->getLast(); break; default: g_l->getFwIter().peek(); } } catch (...) { thrown = true; }
		vp_assert(thrown, "an empty list has no items"); vp_cover("empty"); return;
	}
	build(); const List *k = g_l;
	vp_assert(!g_l->empty(), "not empty");
	vp_assert(&g_l->getFirst() == &g_first->value && &k->getFirst() == &g_first->value, "the first item");
	vp_assert(&g_l->getLast() == &g_last->value && &k->getLast() == &g_last->value, "the last item");
	vp_assert(g_l->getFwIter().cur == g_first, "iteration starts with the first item");
	Iter i = at(); vp_assert(i.hasItems() && &i.peek() == &c[C]->value, "the item at the iterator");
	vp_assert(&g_l->getItem(i) == &c[C]->value && &k->getItem(i) == &c[C]->value, "the item at the iterator");
	Iter j = i; vp_assert(i.equalTo(j), "equal"); vp_assert(&i.getNext() == &c[C]->value, "the item at the iterator");
	vp_assert(i.cur == c[C]->next && i.prev == c[C], "the iterator moves to the next item"); vp_assert(&i.getPrev() == &c[C]->value, "the previous item"); vp_assert(!i.equalTo(j), "not equal");
	same();
	{ Al *a = g_al; Al *b2 = new Al; List m(NodeAlloc((IRuntimeAlloc *)b2)); Node *f = g_l->first, *l = g_l->last;
	  g_l->swap(m); vp_assert(m.first == f && m.last == l && m.fact.get() == a, "swapped with the allocator"); vp_assert(g_l->empty() && g_l->last == 0 && g_l->fact.get() == b2, "swapped back");
	  g_l->swap(m); vp_assert(g_l->fact.get() == a && m.fact.get() == b2 && m.empty(), "swapped again"); same(); }
	{ List m(_moveConstruct, *g_l); vp_assert(m.first == g_first && m.last == g_last && m.fact.get() == g_al, "moved"); vp_assert(g_l->first == 0 && g_l->last == 0, "nothing is left"); m.first = m.last = 0; }
	vp_cover("access");
}
static void expect(const List &l, const uint64_t *v, int n) {
	int k = 0; Node *p = 0;
	for (Iter i = l.getFwIter(); i.hasItems();) { vp_assert(k < n, "not longer"); p = (Node *)i.cur; vp_assert(i.getNext().v == v[k], "the right value in the right order"); k++; }
	vp_assert(k == n, "not shorter"); vp_assert(l.last == p, "the last item is right"); vp_assert(l.size() == (natural)n, "size");
}
//@harness c14_whole kind=bounded
//  copy, assignment, clear, destruction of lists of at most 3 items
VP_HARNESS(c14_whole) {
	Al *a = new Al, *b = new Al; a->any = b->any = true; V::n = 0; V::maythrow = false;
	uint64_t v[3] = { vp_u64(), vp_u64(), vp_u64() }, w[3] = { vp_u64(), vp_u64(), vp_u64() };
	int n = vp_choice(4), m = vp_choice(4);
	{
		List x((NodeAlloc(a))); for (int i = 0; i < n; i++) x.add(V(v[i]));
		expect(x, v, n);
		switch (vp_choice(4)) {
		case 0: { List y(x); expect(y, v, n); expect(x, v, n); vp_cover("copied"); break; }
		case 1: { List y((NodeAlloc(b))); for (int i = 0; i < m; i++) y.add(V(w[i])); y = x; expect(y, v, n); expect(x, v, n); vp_assert(b->live == n && a->live == n, "every list has its own nodes"); y.clear(); vp_assert(y.empty() && b->live == 0, "cleared"); expect(y, v, 0); vp_cover("assigned"); break; }
		case 2: { x = x; expect(x, v, n); break; }
		default: { List y((NodeAlloc(b))); for (int i = 0; i < m; i++) y.add(V(w[i])); y.swap(x); expect(x, w, m); expect(y, v, n); vp_cover("swapped"); }
		}
	}
	vp_assert(V::n == 0, "every value is destroyed once");
}
