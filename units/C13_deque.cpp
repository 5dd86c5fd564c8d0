// C13: the double-ended queue, from an arbitrary well-formed state
#include "vp.h"
#define protected public
#define private public
#include <exception>
#include "lightspeed/base/types.h"
#include "lightspeed/base/memory/stdAlloc.h"
#include "lightspeed/base/containers/deque.tcc"
#undef private
#undef protected
#include "lightspeed/base/exceptions/container.h"
#include "lightspeed/base/exceptions/throws.tcc"
#include "item.h"
using namespace LightSpeed;
//@function Deque::pushBack, pushFront, popBack, popFront, getBack, getFront, at, mutableAt, set, length, empty, isFull, reserve, tryExpand, internalResize, clear, swap, ~Deque
//@assume capacities stay below 2^40 elements
typedef Deque<Item> D;
static D *g_d; static Item *g_old, *g_new; static uint64_t g_k, g_cap, g_len, g_tail, g_ncap, g_slot; static bool g_probenew;
static uint64_t g_q, g_y; // an arbitrary position and the value it holds
//@replace ^operator new\(unsigned long\) => ghost_new
extern "C" void *ghost_new(uint64_t n) {
	vp_assert(n % sizeof(Item) == 0, "whole elements");
	g_ncap = n / sizeof(Item);
	g_new = (Item *)vp_array(8, g_ncap);
	if (g_probenew) { g_k = g_slot; g_P = g_new + g_slot; g_live = false; vp_assume(g_slot < g_ncap); }
	return g_new;
}
//@replace ^operator delete\(void\*\) => ghost_delete
extern "C" void free(void *);
extern "C" void ghost_delete(void *p) {
	if (!p) return;
	vp_assert(vp_implies(vp_and(g_live, g_probenew ? p == g_new : p == g_old), false), "no storage is released with elements in it");
	free(p);
}
// slot of the element at distance i from the tail
static uint64_t slot(uint64_t tail, uint64_t cap, uint64_t i) { uint64_t x = tail + i; return vp_ite64(x < cap, x, x - cap); }
static bool wf(D *d) {
	uint64_t c = d->memBlock.count, n = d->length(), e = slot(d->tail, c, n - 1) + 1;
	return vp_and(vp_and(n <= c, vp_implies(n == 0, vp_and(d->head == 0, d->tail == 0))),
		vp_implies(n != 0, vp_and(d->tail < c, d->head == e)));
}
// an arbitrary well-formed queue of g_len elements with storage for g_cap
static void make(D *d, bool full) {
	uint64_t lim = vp_symbolic() ? (uint64_t)1 << 40 : 9;
	g_cap = vp_range(1, lim); g_len = full ? g_cap : vp_range(0, lim); vp_assume(g_len <= g_cap);
	g_tail = vp_range(0, lim); vp_assume(vp_ite64(g_len == 0, g_tail == 0, g_tail < g_cap));
	g_old = vp_symbolic() ? (Item *)vp_array(8, g_cap) : (Item *)operator new(8 * g_cap);
	d->memBlock.ptr = g_old; d->memBlock.count = g_cap;
	d->tail = g_tail; d->head = vp_ite64(g_len == 0, 0, slot(g_tail, g_cap, g_len - 1) + 1);
	if (!vp_symbolic()) { delete g_set; g_set = 0; for (uint64_t i = 0; i < g_len; i++) new (g_old + slot(g_tail, g_cap, i)) Item(vp_u64()); }
	// the probe: the slot at distance g_slot from the tail
	g_slot = vp_range(0, lim); g_P = 0; g_live = false;
	if (!g_probenew) { vp_assume(g_slot < g_cap); g_k = slot(g_tail, g_cap, g_slot); g_P = g_old + g_k; g_live = g_slot < g_len; }
	g_d = d; g_news = g_len; g_born = 0;
	vp_assert(d->length() == g_len, "length"); vp_assert(d->empty() == (g_len == 0), "empty"); vp_assert(d->isFull() == (g_len == g_cap), "full");
}
static uint64_t old_at(uint64_t i) { return g_old[slot(g_tail, g_cap, i)].v; }
// the slots in use are exactly the live ones, and nothing else is alive
static void exact(D *d) {
	vp_assert(wf(d), "well formed");
	vp_assert(g_news == d->length(), "as many elements as the length says");
	uint64_t c = d->memBlock.count, n = d->length();
	if (vp_symbolic()) {
		bool here = d->memBlock.ptr == (g_probenew ? g_new : g_old);
		uint64_t k = g_k;
		uint64_t dist = vp_ite64(k >= d->tail, k - d->tail, k + c - d->tail);
		vp_assert(vp_implies(here, g_live == (dist < n)), "exactly the slots in use hold elements");
		vp_assert(vp_implies(!here, !g_live), "storage no longer used holds no elements");
	} else for (uint64_t i = 0; i < n; i++) vp_assert(g_set->count(d->memBlock.ptr + (d->tail + i) % c), "exactly the slots in use hold elements");
}
//@harness c13_push_front_room modwrap=1 lia=1500 quick_ms=500 int_ms=1500
//@harness c13_push_back_room modwrap=1 lia=1500 quick_ms=500 int_ms=1500
//@harness c13_pop_front modwrap=1 lia=1500 quick_ms=500 int_ms=1500
//@harness c13_pop_back modwrap=1 lia=1500 quick_ms=500 int_ms=1500
//@harness c13_index modwrap=1 lia=1500 quick_ms=500 int_ms=1500
//@harness c13_empty_throws modwrap=1 lia=1500 quick_ms=500 int_ms=1500
template<bool front> static void push(D *d) {
	uint64_t x = vp_u64(), p, y = 0;
	if (g_len == g_cap) p = g_q; else { p = vp_u64(); vp_assume(p < g_len); }
	y = old_at(p);
	{
		char buf[8]; Item *it = new (buf) Item(x); g_born = 0; g_news--;
		if (front) d->pushFront(*it); else d->pushBack(*it);
		g_news++; it->~Item();
	}
	vp_assert(d->length() == g_len + 1, "one more element");
	exact(d);
	uint64_t c = d->memBlock.count;
	if (front) {
		vp_assert(d->memBlock.ptr[slot(d->tail, c, g_len)].v == x, "the new element is the first at the front");
		vp_assert(d->memBlock.ptr[slot(d->tail, c, p)].v == y, "every other element keeps its place");
	} else {
		vp_assert(d->memBlock.ptr[d->tail].v == x, "the new element is the first at the back");
		vp_assert(d->memBlock.ptr[slot(d->tail, c, p + 1)].v == y, "every other element keeps its place");
	}
	vp_cover("pushed");
}
static char g_buf[sizeof(D)];
static D *raw() { return (D *)g_buf; }
VP_HARNESS(c13_push_front_room) { D *d = raw(); make(d, false); vp_assume(g_len < g_cap); push<true>(d); }
VP_HARNESS(c13_push_back_room) { D *d = raw(); make(d, false); vp_assume(g_len < g_cap); push<false>(d); }
VP_HARNESS(c13_pop_front) {
	D *d = raw(); make(d, false); vp_assume(g_len > 0);
	uint64_t p = vp_u64(); vp_assume(p < g_len - 1); uint64_t y = old_at(p);
	vp_assert(d->getFront().v == old_at(g_len - 1), "the front element");
	d->popFront();
	vp_assert(d->length() == g_len - 1, "one less");
	exact(d);
	vp_assert(d->memBlock.ptr[slot(d->tail, g_cap, p)].v == y, "every other element keeps its place");
	vp_cover("popped");
}
VP_HARNESS(c13_pop_back) {
	D *d = raw(); make(d, false); vp_assume(g_len > 0);
	uint64_t p = vp_u64(); vp_assume(p < g_len); uint64_t y = old_at(p);
	vp_assert(d->getBack().v == old_at(0), "the back element");
	d->popBack();
	vp_assert(d->length() == g_len - 1, "one less");
	exact(d);
	vp_assert(vp_implies(p > 0, d->memBlock.ptr[vp_ite64(p > 0, slot(d->tail, g_cap, p - 1), 0)].v == y), "every other element keeps its place");
	vp_cover("popped");
}
VP_HARNESS(c13_index) {
	D *d = raw(); make(d, false);
	uint64_t p = vp_u64();
	bool thrown = false; const Item *i = 0, *j = 0;
	try { i = &((const D *)d)->at(p); } catch (const RangeException<integer> &) { thrown = true; }
	vp_assert(thrown == (p >= g_len), "an index past the end is refused, every other is served");
	if (!thrown) {
		vp_assert(i == g_old + slot(g_tail, g_cap, p), "the element at this distance from the back");
		j = &d->mutableAt(p); vp_assert(i == j, "the same element");
		uint64_t q = vp_u64(), x = vp_u64(); vp_assume(vp_and(q < g_len, q != p)); uint64_t y = old_at(q);
		char buf[8]; Item *it = new (buf) Item(x); d->set(p, *it); it->~Item();
		vp_assert(i->v == x, "set stores the value"); vp_assert(old_at(q) == y, "and leaves the others");
		exact(d);
		vp_cover("in range");
	} else vp_cover("out of range");
}
VP_HARNESS(c13_empty_throws) {
	D *d = raw(); make(d, false); vp_assume(g_len == 0);
	bool t1 = false, t2 = false, t3 = false, t4 = false;
	try { d->popFront(); } catch (const ContainerIsEmptyException &) { t1 = true; }
	try { d->popBack(); } catch (const ContainerIsEmptyException &) { t2 = true; }
	try { d->getFront(); } catch (const ContainerIsEmptyException &) { t3 = true; }
	try { d->getBack(); } catch (const ContainerIsEmptyException &) { t4 = true; }
	vp_assert(t1 && t2 && t3 && t4, "nothing can be taken from an empty queue");
	exact(d);
}
// growth: every element is moved to fresh storage in order
//@loop Deque<Item.*::MoveOp::doMove => move_inv
static uint64_t atnew(uint64_t i, uint64_t n) { return g_new[vp_ite64(i < n, i, 0)].v; }
extern "C" void move_inv(uint64_t i) {
	vp_inv(i <= g_len, "no more than the elements");
	if (!g_old) return;
	vp_inv(vp_implies(g_q < i, atnew(g_q, i) == g_y), "moved elements keep their values and order");
	vp_inv(vp_implies(g_q >= i, old_at(g_q) == g_y), "elements still to move are untouched");
	uint64_t dist = vp_ite64(g_k >= g_tail, g_k - g_tail, g_k + g_cap - g_tail);
	vp_inv(vp_implies(!g_probenew, g_live == vp_and(dist < g_len, dist >= i)), "exactly the elements not yet moved are alive in the old storage");
	vp_inv(vp_implies(g_probenew, g_live == (g_k < i)), "exactly the elements moved are alive in the new storage");
	vp_inv(vp_and(g_news == g_len, g_born == i), "no element is lost or duplicated");
}
// a move that throws: everything moved so far is moved back
//@loop Deque<Item.*::MoveOp::~MoveOp => back_inv
extern "C" void back_inv(uint64_t j) {
	uint64_t i = g_thrown;
	vp_inv(j <= i, "no more than were moved");
	vp_inv(vp_implies(vp_and(g_q >= j, g_q < i), atnew(g_q, i) == g_y), "elements to move back are still in the new storage");
	vp_inv(vp_implies(vp_or(g_q < j, g_q >= i), old_at(g_q) == g_y), "every other element is in its old place");
	uint64_t dist = vp_ite64(g_k >= g_tail, g_k - g_tail, g_k + g_cap - g_tail);
	vp_inv(vp_implies(!g_probenew, g_live == vp_and(dist < g_len, vp_or(dist < j, dist >= i))), "exactly the elements moved back are alive again");
	vp_inv(vp_implies(g_probenew, g_live == vp_and(g_k >= j, g_k < i)), "and no longer alive in the new storage");
	vp_inv(g_news == g_len, "no element is lost or duplicated");
}
static void pick(D *d) { g_q = vp_u64(); vp_assume(g_q < g_len); g_y = old_at(g_q); }
static void grow(D *d) {
	pick(d);
	uint64_t n = vp_u64(); vp_assume(n < (vp_symbolic() ? (uint64_t)1 << 41 : 64));
	bool r = d->reserve(n);
	vp_assert(r == (n > g_len), "reserve succeeds unless the elements do not fit");
	vp_assert(d->length() == g_len, "same length");
	vp_assert(vp_implies(r, d->memBlock.count == n), "room for the elements asked for");
	exact(d);
	vp_assert(d->memBlock.ptr[slot(d->tail, d->memBlock.count, g_q)].v == g_y, "every element keeps its place");
	vp_cover(r ? "grown" : "not grown");
}
//@harness c13_reserve_old modwrap=1 lia=1500 quick_ms=500 int_ms=1500
VP_HARNESS(c13_reserve_old) { D *d = raw(); make(d, false); grow(d); }
//@harness c13_reserve_new modwrap=1 lia=1500 quick_ms=500 int_ms=1500
VP_HARNESS(c13_reserve_new) { D *d = raw(); g_probenew = true; make(d, false); grow(d); }
static void grow_throws(D *d) {
	pick(d);
	uint64_t n = vp_u64(); vp_assume(vp_and(n < (vp_symbolic() ? (uint64_t)1 << 41 : 64), n > g_len));
	g_maythrow = true;
	bool thrown = false;
	try { d->reserve(n); } catch (int) { thrown = true; }
	g_maythrow = false;
	if (!thrown) vp_end();
	vp_assert(d->memBlock.ptr == g_old && d->memBlock.count == g_cap, "still the old storage");
	vp_assert(d->length() == g_len, "same length");
	exact(d);
	vp_assert(d->memBlock.ptr[slot(d->tail, d->memBlock.count, g_q)].v == g_y, "every element keeps its place");
	vp_cover("thrown");
}
//@harness c13_throw_old modwrap=1 lia=1500 quick_ms=500 int_ms=1500
VP_HARNESS(c13_throw_old) { D *d = raw(); make(d, false); grow_throws(d); }
//@harness c13_throw_new modwrap=1 lia=1500 quick_ms=500 int_ms=1500
VP_HARNESS(c13_throw_new) { D *d = raw(); g_probenew = true; make(d, false); grow_throws(d); }
// a full queue grows by itself
//@harness c13_push_front_full_old modwrap=1 lia=1500 quick_ms=500 int_ms=1500
VP_HARNESS(c13_push_front_full_old) { D *d = raw(); make(d, true); pick(d); push<true>(d); }
//@harness c13_push_front_full_new modwrap=1 lia=1500 quick_ms=500 int_ms=1500
VP_HARNESS(c13_push_front_full_new) { D *d = raw(); g_probenew = true; make(d, true); pick(d); push<true>(d); }
//@harness c13_push_back_full_old modwrap=1 lia=1500 quick_ms=500 int_ms=1500
VP_HARNESS(c13_push_back_full_old) { D *d = raw(); make(d, true); pick(d); push<false>(d); }
//@harness c13_push_back_full_new modwrap=1 lia=1500 quick_ms=500 int_ms=1500
VP_HARNESS(c13_push_back_full_new) { D *d = raw(); g_probenew = true; make(d, true); pick(d); push<false>(d); }
// the first element of a new queue, and a construction that throws
//@harness c13_first modwrap=1 lia=1500
VP_HARNESS(c13_first) {
	D *d = raw(); new (d) D();
	vp_assert(d->empty() && d->length() == 0 && d->isFull(), "a new queue is empty");
	uint64_t x = vp_u64(); char buf[8]; Item *it = new (buf) Item(x);
	bool front = vp_bool(); g_maythrow = true; bool thrown = false;
	try { if (front) d->pushFront(*it); else d->pushBack(*it); } catch (int) { thrown = true; }
	g_maythrow = false;
	it->~Item();
	vp_assert(wf(d), "well formed");
	vp_assert(d->length() == (thrown ? 0u : 1u) && d->empty() == thrown && g_news == d->length(), "one element unless its construction threw");
	if (!thrown) vp_assert(d->getFront().v == x && d->getBack().v == x && d->at(0).v == x, "the element pushed");
	if (!thrown) d->popBack();
	d->~D();
	vp_assert(g_news == 0, "nothing leaks");
	vp_cover(thrown ? "thrown" : front ? "front" : "back");
}
//@harness c13_push_throws modwrap=1 lia=1500 quick_ms=500 int_ms=1500
VP_HARNESS(c13_push_throws) {
	D *d = raw(); make(d, false); vp_assume(g_len < g_cap);
	uint64_t q = vp_u64(); vp_assume(g_len == 0 || q < g_len); uint64_t y = g_len ? old_at(q) : 0;
	char buf[8]; Item *it = new (buf) Item(vp_u64());
	bool front = vp_bool(); g_maythrow = true; bool thrown = false;
	try { if (front) d->pushFront(*it); else d->pushBack(*it); } catch (int) { thrown = true; }
	g_maythrow = false;
	it->~Item();
	if (!thrown) vp_end();
	vp_assert(d->length() == g_len && d->empty() == (g_len == 0), "same length");
	exact(d);
	if (g_len) vp_assert(d->at(q).v == y, "every element keeps its place");
	vp_cover(front ? "front" : "back");
}
// destruction and clear
//@loop Deque<Item.*::Deleter::run => del_inv
extern "C" void del_inv(uint64_t i) {
	i = g_len - g_news;
	vp_inv(i <= g_len, "no more than the elements");
	uint64_t dist = vp_ite64(g_k >= g_tail, g_k - g_tail, g_k + g_cap - g_tail);
	vp_inv(g_live == vp_and(dist < g_len, dist >= i), "exactly the elements already visited are destroyed");
	vp_cand(i);
}
//@harness c13_destroy modwrap=1 lia=1500 quick_ms=500 int_ms=1500
VP_HARNESS(c13_destroy) {
	D *d = raw(); make(d, false);
	d->~D();
	vp_assert(vp_and(g_news == 0, vp_implies(vp_symbolic(), !g_live)), "every element is destroyed");
	vp_cover("destroyed");
}
//@loop Deque<Item.*::clear => clear_inv
extern "C" void clear_inv(uint64_t i) {
	D *d = g_d;
	vp_inv(i <= g_len, "no more than the elements");
	vp_inv(d->tail == vp_ite64(i == g_len, 0, g_tail), "the back stays");
	vp_inv(d->head == vp_ite64(i == g_len, 0, slot(g_tail, g_cap, g_len - i - 1) + 1), "the front moves");
	uint64_t dist = vp_ite64(g_k >= g_tail, g_k - g_tail, g_k + g_cap - g_tail);
	vp_inv(g_live == (dist < g_len - i), "exactly the elements already visited are destroyed");
	vp_inv(g_news == g_len - i, "one at a time");
}
//@harness c13_clear modwrap=1 lia=1500 quick_ms=500 int_ms=1500
VP_HARNESS(c13_clear) {
	D *d = raw(); make(d, false);
	d->clear();
	vp_assert(vp_and(g_news == 0, vp_implies(vp_symbolic(), !g_live)), "every element is destroyed");
	vp_assert(d->length() == 0 && d->empty() && wf(d), "and the queue is empty");
	vp_cover("cleared");
}
//@harness c13_swap modwrap=1 lia=1500
VP_HARNESS(c13_swap) {
	D *d = raw(); make(d, false);
	static char b2[sizeof(D)]; D *e = (D *)b2; new (e) D();
	uint64_t h = d->head, c = d->memBlock.count; Item *p = d->memBlock.ptr;
	d->swap(*e);
	vp_assert(d->length() == 0 && d->memBlock.ptr == 0 && d->memBlock.count == 0, "now the other queue's elements");
	vp_assert(e->head == h && e->tail == g_tail && e->memBlock.ptr == p && e->memBlock.count == c, "and the other way round");
}
