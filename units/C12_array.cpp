// C12: the dynamic array, from an arbitrary well-formed state; moving and destroying ranges by their contracts (C12_objmanip)
#include "vp.h"
#define protected public
#define private public
#include <exception>
#include "lightspeed/base/types.h"
#include "lightspeed/base/memory/stdAlloc.h"
#include "lightspeed/base/containers/autoArray.tcc"
#undef private
#undef protected
#include "lightspeed/base/exceptions/container.h"
#include "lightspeed/base/exceptions/throws.tcc"
#include "item.h"
using namespace LightSpeed;
//@function AutoArray::add (one, many, of its own items), insert (one, many, of its own items), erase, trunc, clear, resize (both), reserve, addExtra, freeExtra, append, insertArray, copy constructor, operator=, swap, destructor, length, at
//@assume capacities stay below 2^40 elements
typedef AutoArray<Item> A;
static A *g_a; static Item *g_old, *g_new; static uint64_t g_cap, g_len, g_ncap, g_slot; static bool g_probenew;
static uint64_t g_q, g_y; static bool g_qn, g_lost;        // a tracked element: its slot (in the new storage if g_qn) and its value
static uint64_t g_mk, g_mv; static bool g_mn;              // a second tracked element, when g_m
static bool g_m;
static uint64_t lim() { return vp_symbolic() ? (uint64_t)1 << 40 : 9; }
//@replace ^operator new\(unsigned long\) => ghost_new
extern "C" void *ghost_new(uint64_t n) {
	vp_assert(n % sizeof(Item) == 0, "whole elements");
	vp_assert(g_new == 0, "one allocation is enough");
	g_ncap = n / sizeof(Item);
	g_new = (Item *)vp_array(8, g_ncap);
	if (g_probenew) { vp_assume(g_slot < g_ncap); g_P = g_new + g_slot; g_live = false; }
	return g_new;
}
//@replace ^operator delete\(void\*\) => ghost_delete
extern "C" void free(void *);
extern "C" void ghost_delete(void *p) {
	if (!p) return;
	vp_assert(vp_implies(vp_and(g_live, g_probenew ? p == g_new : p == g_old), false), "no storage is released with elements in it");
	free(p);
}
// contracts of range operations, proved in C12_objmanip. (Verifier only: native runs use the real functions.)
static bool in(uint64_t x, uint64_t s, uint64_t n) { return vp_and(x >= s, x < s + n); }   // sizes below 2^41
static Item *base() { return g_a->allocBk.ptr; }
static bool onnew() { return base() != g_old; }
//@replace ^LightSpeed::ObjManipNonPOD<Item>::move\( => ghost_move
extern "C" Item *ghost_move(Item *src, uint64_t n, void *t) {
	Item *dst = (Item *)t;
	if (n == 0) return dst;
	bool grow = g_new && !onnew();
	uint64_t s = src - base(), d = dst - (grow ? g_new : base());
	vp_assert(grow || s != d, "elements are not moved over themselves");
	uint64_t cs = onnew() ? g_ncap : g_cap, cd = grow ? g_ncap : cs;
	vp_assert(vp_and(vp_and(s <= cs, n <= cs - s), vp_and(d <= cd, n <= cd - d)), "moved within the storage");
	bool sn = onnew(), dn = grow ? true : sn;
	bool ps = g_probenew == sn ? in(g_slot, s, n) : false, pd = g_probenew == dn ? in(g_slot, d, n) : false;
	vp_assert(vp_implies(ps, g_live), "only live elements are moved");
	vp_assert(vp_implies(vp_and(pd, !ps), !g_live), "elements are moved over dead slots only");
	g_live = vp_or(pd, vp_and(g_live, !ps));
	if (grow) {
		vp_havoc_array(g_new);
		vp_assert(in(g_q, s, n), "every element is moved to the new storage");
		g_q = g_q - s + d; g_qn = true; vp_assume(g_new[g_q].v == g_y);
	} else {
		bool m = in(g_q, s, n);
		g_q = vp_ite64(m, g_q - s + d, g_q);
		bool mm = in(g_mk, s, n);
		if (g_m) g_mk = vp_ite64(mm, g_mk - s + d, g_mk);
		vp_havoc_array(base());
		vp_assume(vp_or(vp_and(!m, in(g_q, d, n)), base()[g_q].v == g_y));
		if (g_m) vp_assume(vp_or(vp_and(!mm, in(g_mk, d, n)), base()[g_mk].v == g_mv));
	}
	return dst;
}
static void gone(Item *p, uint64_t n) {
	if (n == 0) return;
	uint64_t s = p - base(), c = onnew() ? g_ncap : g_cap;
	vp_assert(vp_and(s <= c, n <= c - s), "within the storage");
	bool ps = g_probenew == onnew() ? in(g_slot, s, n) : false;
	vp_assert(vp_implies(ps, g_live), "only live elements are destroyed");
	g_live = vp_and(g_live, !ps); g_news -= n;
}
//@replace ^LightSpeed::ObjManipNonPOD<Item>::destruct\( => ghost_destruct
extern "C" void ghost_destruct(Item *p, uint64_t n) {
	gone(p, n);
	if (n) { uint64_t s = p - base(); vp_havoc_array(base()); vp_assume(vp_or(in(g_q, s, n), base()[g_q].v == g_y)); }
}
//@replace ^LightSpeed::ObjManipNonPOD<Item>::construct\(void\*, unsigned long\) => ghost_construct
extern "C" Item *ghost_construct(void *t, uint64_t n) {
	Item *p = (Item *)t;
	if (n == 0) return p;
	uint64_t s = p - base(), c = onnew() ? g_ncap : g_cap;
	vp_assert(vp_and(s <= c, n <= c - s), "within the storage");
	bool ps = g_probenew == onnew() ? in(g_slot, s, n) : false;
	vp_assert(vp_implies(ps, !g_live), "no element is constructed over a live one");
	g_live = vp_or(g_live, ps); g_news += n;
	vp_havoc_array(base());
	vp_assume(vp_or(in(g_q, s, n), base()[g_q].v == g_y));
	if (g_m) vp_assume(vp_implies(in(g_mk, s, n), base()[g_mk].v == 0));
	return p;
}
static char g_buf[sizeof(A)], g_buf2[sizeof(A)];
static A *make(bool full) {
	A *a = (A *)g_buf; new (a) A(); g_a = a;
	g_cap = vp_range(0, lim()); g_len = full ? g_cap : vp_range(0, lim()); vp_assume(g_len <= g_cap);
	g_old = vp_symbolic() ? (Item *)vp_array(8, g_cap) : (Item *)operator new(8 * g_cap);
	a->allocBk.ptr = g_old; a->allocBk.count = g_cap; a->usedSz = g_len;
	g_new = 0; g_slot = vp_range(0, lim()); g_P = 0; g_live = false;
	if (!vp_symbolic()) { delete g_set; g_set = 0; for (uint64_t i = 0; i < g_len; i++) new (g_old + i) Item(vp_u64()); }
	if (!g_probenew) { vp_assume(g_slot < g_cap); g_P = g_old + g_slot; g_live = g_slot < g_len; }
	g_news = g_len; g_born = 0; g_m = false; g_mk = 0;
	g_q = vp_range(0, lim()); g_qn = false; vp_assume(g_q < g_len); g_y = g_old[g_q].v;
	vp_assert(a->length() == g_len && a->empty() == (g_len == 0), "length");
	return a;
}
static uint64_t at(A *a, uint64_t i) { vp_assert(i < a->usedSz, "within the array"); return (*(const A *)a)[i].v; }
static void exact(A *a, uint64_t n) {
	vp_assert(a->length() == n, "as many elements as intended");
	vp_assert(n <= a->allocBk.count, "the elements fit the storage");
	if (vp_symbolic()) vp_assert(a->allocBk.ptr == (g_new ? g_new : g_old) && a->allocBk.count == (g_new ? g_ncap : g_cap), "the storage is the one allocated");
	vp_assert(g_news == n, "as many elements are alive");
	if (vp_symbolic()) {
		if (g_probenew == onnew()) vp_assert(g_live == (g_slot < n), "exactly the slots in use hold elements");
		else vp_assert(!g_live, "storage no longer used holds no elements");
	} else for (uint64_t i = 0; i < n; i++) vp_assert(g_set->count(a->allocBk.ptr + i), "exactly the slots in use hold elements");
}
// the element that was at q is now at p, with its value
static void kept(A *a, uint64_t p, const char *) { vp_assert(at(a, p) == g_y, "every other element keeps its value and order"); }
struct Arg { char b[8]; Item *p; Arg(uint64_t v) { p = new (b) Item(v); g_news--; g_born = 0; } ~Arg() { g_news++; p->~Item(); } };
// ---- one element
static void add1(bool full) {
	A *a = make(full); uint64_t q = g_q, x = vp_u64();
	if (!full) vp_assume(g_len < g_cap);
	{ Arg it(x); a->add(*it.p); }
	exact(a, g_len + 1); kept(a, q, 0);
	vp_assert(at(a, g_len) == x, "the new element is the last");
	vp_cover("added");
}
//@harness c12_add_room lia=1500 quick_ms=300 int_ms=1500
VP_HARNESS(c12_add_room) { add1(false); }
//@harness c12_add_full_old lia=1500 quick_ms=300 int_ms=1500
VP_HARNESS(c12_add_full_old) { add1(true); }
//@harness c12_add_full_new lia=1500 quick_ms=300 int_ms=1500
VP_HARNESS(c12_add_full_new) { g_probenew = true; add1(true); }
//@harness c12_add_own lia=1500 quick_ms=300 int_ms=1500
VP_HARNESS(c12_add_own) {
	A *a = make(false); uint64_t q = g_q;
	a->add((*a)[q]);
	exact(a, g_len + 1); kept(a, q, 0);
	vp_assert(at(a, g_len) == g_y, "the new element is a copy of the array's own element");
	vp_cover(g_new ? "grown" : "room");
}
//@harness c12_first lia=1500 quick_ms=300 int_ms=1500
VP_HARNESS(c12_first) {
	A *a = (A *)g_buf; new (a) A(); g_a = a; g_P = 0;
	vp_assert(a->empty() && a->length() == 0, "a new array is empty");
	uint64_t x = vp_u64(), y = vp_u64();
	{ Arg it(x); g_a->add(*it.p); g_news++; g_news--; }
	vp_assert(a->length() == 1 && (*a)[0].v == x && g_news == 1, "one element");
	a->clear();
	vp_assert(a->empty() && g_news == 0, "nothing left");
	{ Arg it(y); a->add(*it.p); }
	a->~A();
	vp_assert(g_news == 0, "nothing leaks");
}
// ---- many elements
static uint64_t g_cnt, g_x; 
//@loop AutoArrayT<Item.*::add\( => add_inv
extern "C" void add_inv(uint64_t i) {
	A *a = g_a;
	vp_inv(i <= g_cnt, "no more than asked for");
	vp_inv(vp_and(a->usedSz == g_len + i, g_news == g_len + i), "one more every time");
	bool here = g_probenew == onnew();
	vp_inv(g_live == (here ? g_slot < g_len + i : false), "exactly the slots in use hold elements");
	vp_inv(g_len + g_cnt <= a->allocBk.count, "fits the storage");
	vp_inv(base()[g_q].v == g_y, "every other element keeps its value");
	bool done = in(g_mk, g_len, i);
	vp_inv(vp_implies(done, base()[vp_ite64(done, g_mk, 0)].v == g_mv), "the new elements hold the value");
}
static void addn(bool own) {
	A *a = make(false); uint64_t q = g_q; g_x = vp_u64();
	g_cnt = vp_range(0, lim()); g_mk = vp_range(0, lim()); vp_assume(in(g_mk, g_len, g_cnt)); g_mv = own ? g_y : g_x;
	if (own) a->add((*a)[q], g_cnt);
	else { Arg it(g_x); a->add(*it.p, g_cnt); }
	exact(a, g_len + g_cnt); kept(a, q, 0);
	vp_assert(at(a, g_mk) == g_mv, "every new element holds the value");
	vp_cover(g_new ? "grown" : "room");
}
//@harness c12_addn_old lia=1500 quick_ms=300 int_ms=1500
VP_HARNESS(c12_addn_old) { addn(false); }
//@harness c12_addn_new lia=1500 quick_ms=300 int_ms=1500
VP_HARNESS(c12_addn_new) { g_probenew = true; addn(false); }
//@harness c12_addn_own lia=1500 quick_ms=300 int_ms=1500
VP_HARNESS(c12_addn_own) { addn(true); }
// ---- insertion
static uint64_t g_ip;
//@loop AutoArrayT<Item.*::insert\( => ins_inv
extern "C" void ins_inv(uint64_t i) {
	A *a = g_a;
	vp_inv(i <= g_cnt, "no more than asked for");
	vp_inv(vp_and(a->usedSz == g_len + g_cnt, g_news == g_len + i), "one more every time");
	bool here = g_probenew == onnew();
	vp_inv(g_live == (here ? vp_and(g_slot < g_len + g_cnt, !in(g_slot, g_ip + i, g_cnt - i)) : false), "exactly the slots in use hold elements");
	vp_inv(base()[g_q].v == g_y, "every other element keeps its value");
	bool done = in(g_mk, g_ip, i);
	vp_inv(vp_implies(done, base()[vp_ite64(done, g_mk, 0)].v == g_mv), "the new elements hold the value");
}
static void insn(bool own) {
	A *a = make(false); uint64_t q = g_q; g_x = vp_u64();
	g_cnt = vp_range(0, lim()); g_ip = vp_range(0, lim()); vp_assume(g_ip <= g_len);
	g_mk = vp_range(0, lim()); uint64_t mk = g_mk; vp_assume(in(g_mk, g_ip, g_cnt)); g_mv = own ? g_y : g_x;
	if (own) a->insert(g_ip, (*a)[q], g_cnt);
	else { Arg it(g_x); a->insert(g_ip, *it.p, g_cnt); }
	g_mk = mk;
	exact(a, g_len + g_cnt); kept(a, vp_ite64(q < g_ip, q, q + g_cnt), 0);
	vp_assert(at(a, mk) == g_mv, "every new element holds the value");
	vp_cover(g_new ? "grown" : "room");
}
//@harness c12_insert_old lia=1500 quick_ms=300 int_ms=1500
VP_HARNESS(c12_insert_old) { insn(false); }
//@harness c12_insert_new lia=1500 quick_ms=300 int_ms=1500
VP_HARNESS(c12_insert_new) { g_probenew = true; insn(false); }
//@harness c12_insert_own lia=1500 quick_ms=300 int_ms=1500
VP_HARNESS(c12_insert_own) { insn(true); }
//@harness c12_insert_nothing lia=1500 quick_ms=300 int_ms=1500
VP_HARNESS(c12_insert_nothing) {
	A *a = make(false); g_ip = vp_range(0, lim()); uint64_t q = g_q; g_cnt = 0; vp_assume(g_ip <= g_len);
	{ Arg it(vp_u64()); a->insert(g_ip, *it.p, 0); }
	exact(a, g_len); kept(a, q, 0);
}
//@harness c12_insert_one lia=1500 quick_ms=300 int_ms=1500
VP_HARNESS(c12_insert_one) {
	A *a = make(false); g_ip = vp_range(0, lim()); uint64_t q = g_q, x = vp_u64(); g_cnt = 1; vp_assume(g_ip <= g_len); g_mk = g_ip; g_mv = x;
	{ Arg it(x); a->insert(g_ip, *it.p); }
	exact(a, g_len + 1); kept(a, vp_ite64(q < g_ip, q, q + 1), 0); vp_assert(at(a, g_ip) == x, "the new element is where it was put");
}
//@harness c12_range lia=1500 quick_ms=300 int_ms=1500
VP_HARNESS(c12_range) {
	A *a = make(false); uint64_t p = vp_u64(), q = g_q; vp_assume(p > g_len); bool t1 = false, t2 = false;
	{ Arg it(vp_u64()); try { a->insert(p, *it.p, vp_range(0, 9)); } catch (const RangeException<natural> &) { t1 = true; } }
	try { a->erase(p, vp_u64()); } catch (const RangeException<natural> &) { t2 = true; }
	vp_assert(t1 && t2, "a position past the end is refused");
	exact(a, g_len); kept(a, q, 0);
}
// ---- erasing
static void erased(A *a, uint64_t p, uint64_t n, uint64_t q) {
	exact(a, g_len - n);
	if (!in(q, p, n)) { kept(a, vp_ite64(q < p, q, q - n), 0); vp_cover("kept"); }
}
//@harness c12_erase lia=1500 quick_ms=300 int_ms=1500
VP_HARNESS(c12_erase) {
	A *a = make(false); uint64_t q = g_q, p = vp_range(0, lim()), n = vp_bool() ? ~(uint64_t)0 : vp_range(0, lim()); vp_assume(p <= g_len);
	a->erase(p, n);
	erased(a, p, vp_ite64(n < g_len - p, n, g_len - p), q);
}
//@harness c12_erase_one lia=1500 quick_ms=300 int_ms=1500
VP_HARNESS(c12_erase_one) {
	A *a = make(false); uint64_t q = g_q, p = vp_range(0, lim()); vp_assume(p < g_len);
	a->erase(p); erased(a, p, 1, q);
}
//@harness c12_trunc lia=1500 quick_ms=300 int_ms=1500
VP_HARNESS(c12_trunc) {
	A *a = make(false); uint64_t q = g_q, n = vp_u64(); a->trunc(n);
	uint64_t m = vp_ite64(n < g_len, n, g_len); erased(a, g_len - m, m, q);
}
//@harness c12_clear lia=1500 quick_ms=300 int_ms=1500 
VP_HARNESS(c12_clear) { A *a = make(false); a->clear(); exact(a, 0); vp_assert(a->empty(), "empty"); }
//@harness c12_destroy lia=1500 quick_ms=300 int_ms=1500
VP_HARNESS(c12_destroy) { A *a = make(false); a->~A(); vp_assert(vp_and(g_news == 0, vp_implies(vp_symbolic(), !g_live)), "every element is destroyed"); }
// ---- resizing
static void resz(bool init) {
	A *a = make(false); uint64_t q = g_q, n = vp_range(0, lim()); g_m = true; g_mk = vp_range(0, lim()); g_x = vp_u64(); g_mv = init ? g_x : 0;
	g_cnt = vp_ite64(n > g_len, n - g_len, 0); vp_assume(n <= g_len || in(g_mk, g_len, g_cnt));
	if (n <= g_len) g_m = false;
	if (init) { Arg it(g_x); a->resize(n, *it.p); } else a->resize(n);
	exact(a, n);
	if (q < n) kept(a, q, 0);
	if (n > g_len) { vp_assert(at(a, g_mk) == g_mv, "every new element holds the initial value"); vp_cover("longer"); } else vp_cover("shorter");
}
//@harness c12_resize_old lia=1500 quick_ms=300 int_ms=1500
VP_HARNESS(c12_resize_old) { resz(false); }
//@harness c12_resize_new lia=1500 quick_ms=300 int_ms=1500
VP_HARNESS(c12_resize_new) { g_probenew = true; resz(false); }
//@harness c12_resize_init_old lia=1500 quick_ms=300 int_ms=1500
VP_HARNESS(c12_resize_init_old) { resz(true); }
//@harness c12_resize_init_new lia=1500 quick_ms=300 int_ms=1500
VP_HARNESS(c12_resize_init_new) { g_probenew = true; resz(true); }
static void reserve() {
	A *a = make(false); uint64_t q = g_q, n = vp_range(0, lim());
	if (vp_bool()) { a->reserve(n); vp_assert(a->allocBk.count >= n, "room for the elements asked for"); vp_cover("reserve"); }
	else { a->freeExtra(); vp_assert(a->allocBk.count == g_len, "no more room than needed"); vp_cover("free"); }
	exact(a, g_len); kept(a, q, 0);
}
//@harness c12_reserve_old lia=1500 quick_ms=300 int_ms=1500
VP_HARNESS(c12_reserve_old) { reserve(); }
//@harness c12_reserve_new lia=1500 quick_ms=300 int_ms=1500
VP_HARNESS(c12_reserve_new) { g_probenew = true; reserve(); }
//@harness c12_swap lia=1500 quick_ms=300 int_ms=1500
VP_HARNESS(c12_swap) {
	A *a = make(false); A *b = (A *)g_buf2; new (b) A();
	uint64_t q = g_q; 
	a->swap(*b);
	vp_assert(a->length() == 0 && a->allocBk.ptr == 0 && a->allocBk.count == 0, "now the other array's elements");
	vp_assert(b->length() == g_len && b->allocBk.ptr == g_old && b->allocBk.count == g_cap && (*b)[q].v == g_y, "and the other way round");
	vp_assert(g_news == g_len && g_born == 0, "without copying any");
}
// ---- from another array
static Item *g_src; static uint64_t g_r, g_base;   // the other array's elements; its tracked position; elements in front of the copies
static A *other() {
	A *b = (A *)g_buf2; new (b) A();
	g_cnt = vp_range(0, lim()); uint64_t c = vp_range(0, lim()); vp_assume(g_cnt <= c);
	g_src = vp_symbolic() ? (Item *)vp_array(8, c) : (Item *)operator new(8 * c);
	b->allocBk.ptr = g_src; b->allocBk.count = c; b->usedSz = g_cnt;
	if (!vp_symbolic()) { for (uint64_t i = 0; i < g_cnt; i++) new (g_src + i) Item(vp_u64()); g_news -= g_cnt; g_born = 0; }
	g_r = vp_range(0, lim()); vp_assume(g_r < g_cnt); g_mv = g_src[g_r].v; g_base = g_len;
	return b;
}
extern "C" void copied(uint64_t i) {
	A *a = g_a;
	vp_inv(i <= g_cnt, "no more than the other array holds");
	vp_inv(vp_and(a->usedSz == g_base + i, g_news == g_base + i), "one more every time");
	bool here = g_probenew == onnew();
	vp_inv(g_live == (here ? g_slot < g_base + i : false), "exactly the slots in use hold elements");
	vp_inv(g_base + g_cnt <= a->allocBk.count, "fits the storage");
	if (g_base) vp_inv(base()[g_q].v == g_y, "every other element keeps its value");
	bool done = g_r < i;
	vp_inv(vp_implies(done, base()[vp_ite64(done, g_base + g_r, 0)].v == g_mv), "the copies hold the values in order");
	if (g_src != g_old) vp_inv(g_src[g_r].v == g_mv, "the other array is untouched");
}
//@loop AutoArrayT<Item.*::append<.*ArrayT< => copied
//@loop ::forEach< => copied
//@loop WriteIteratorBase<.*::copy< => inscopied
static void app() {
	A *a = make(false); uint64_t q = g_q; A *b = other();
	a->append(*b);
	exact(a, g_len + g_cnt); kept(a, q, 0);
	vp_assert(at(a, g_len + g_r) == g_mv, "the other array's elements follow in order");
	vp_assert(b->length() == g_cnt && (*b)[g_r].v == g_mv, "the other array is untouched");
	vp_cover(g_new ? "grown" : "room");
}
//@harness c12_append_old lia=1500 quick_ms=300 int_ms=1500
VP_HARNESS(c12_append_old) { app(); }
//@harness c12_append_new lia=1500 quick_ms=300 int_ms=1500
VP_HARNESS(c12_append_new) { g_probenew = true; app(); }

// an iterator over the other array fills the gap
extern "C" void inscopied(uint64_t i) {
	A *a = g_a;
	vp_inv(i <= g_cnt, "no more than the other array holds");
	vp_inv(vp_and(a->usedSz == g_len + g_cnt, g_news == g_len + i), "one more every time");
	bool here = g_probenew == onnew();
	vp_inv(g_live == (here ? vp_and(g_slot < g_len + g_cnt, !in(g_slot, g_ip + i, g_cnt - i)) : false), "exactly the slots in use hold elements");
	vp_inv(base()[g_q].v == g_y, "every other element keeps its value");
	bool done = g_r < i;
	vp_inv(vp_implies(done, base()[vp_ite64(done, g_ip + g_r, 0)].v == g_mv), "the copies hold the values in order");
	if (g_src != g_old) vp_inv(g_src[g_r].v == g_mv, "the other array is untouched");
}
static void insarr() {
	A *a = make(false); uint64_t q = g_q; A *b = other();
	g_ip = vp_range(0, lim()); vp_assume(g_ip <= g_len);
	a->insertArray(g_ip, *b);
	exact(a, g_len + g_cnt); kept(a, vp_ite64(q < g_ip, q, q + g_cnt), 0);
	vp_assert(at(a, g_ip + g_r) == g_mv, "the other array's elements are inserted in order");
	vp_cover(g_new ? "grown" : "room");
}
//@harness c12_insert_array_old lia=1500 quick_ms=300 int_ms=1500
VP_HARNESS(c12_insert_array_old) { insarr(); }
//@harness c12_insert_array_new lia=1500 quick_ms=300 int_ms=1500
VP_HARNESS(c12_insert_array_new) { g_probenew = true; insarr(); }
static void assign() {
	A *a = make(false); A *b = other(); g_base = 0;
	*a = *b;
	exact(a, g_cnt);
	vp_assert(at(a, g_r) == g_mv, "the copies hold the values in order");
	vp_assert(b->length() == g_cnt && (*b)[g_r].v == g_mv, "the other array is untouched");
	vp_cover(g_new ? "grown" : "room");
}
//@harness c12_assign_old lia=1500 quick_ms=300 int_ms=1500
VP_HARNESS(c12_assign_old) { assign(); }
//@harness c12_assign_new lia=1500 quick_ms=300 int_ms=1500
VP_HARNESS(c12_assign_new) { g_probenew = true; assign(); }
//@harness c12_assign_self lia=1500
VP_HARNESS(c12_assign_self) { A *a = make(false); uint64_t q = g_q; *a = *a; exact(a, g_len); kept(a, q, 0); }
//@harness c12_append_self lia=1500 quick_ms=300 int_ms=1500
VP_HARNESS(c12_append_self) {
	A *a = make(false); uint64_t q = g_q; g_cnt = g_len; g_base = g_len; g_r = q; g_mv = g_y; g_src = g_old;
	a->append(*a);
	exact(a, g_len + g_len); kept(a, q, 0);
	vp_assert(at(a, g_len + q) == g_y, "the array's own elements follow in order");
	vp_cover(g_new ? "grown" : "room");
}
// copy construction: the new array is the probed one
//@harness c12_copy lia=1500 quick_ms=300 int_ms=1500
VP_HARNESS(c12_copy) {
	g_probenew = true; g_a = (A *)g_buf; g_new = 0; g_old = 0; g_live = false; g_len = 0; g_news = 0; g_born = 0; g_slot = vp_range(0, lim());
	if (!vp_symbolic()) { delete g_set; g_set = 0; }
	A *b = other();
	A *a = new (g_buf) A(*b);
	exact(a, g_cnt);
	vp_assert(at(a, g_r) == g_mv, "the copies hold the values in order");
	vp_assert(b->length() == g_cnt && (*b)[g_r].v == g_mv, "the other array is untouched");
}
