// C12: moving, destroying and constructing ranges of elements (the contracts the array relies on)
#include "vp.h"
#include <exception>
#include "lightspeed/base/types.h"
#include "lightspeed/base/objmanip.h"
#include "item.h"
using namespace LightSpeed;
//@function ObjManipNonPOD::move (both directions, with rollback), destruct, construct, copy, swap; ObjManipPOD::construct, swap
//@assume ranges stay below 2^40 elements
typedef ObjManip<Item> M;
static Item *g_a, *g_b;       // two blocks; g_b may be the same block as g_a
static uint64_t g_cap, g_s, g_t, g_n;  // source, target, count
static uint64_t g_k, g_q, g_y; static bool g_pb;    // probe slot g_k (in b if g_pb), tracked element g_q
static bool g_same, g_up; static uint64_t g_b0;
static uint64_t lim() { return vp_symbolic() ? (uint64_t)1 << 40 : 9; }
static Item *block() { return vp_symbolic() ? (Item *)vp_array(8, g_cap) : (Item *)operator new(8 * g_cap); }
static bool in(uint64_t x, uint64_t s, uint64_t n) { return vp_and(x >= s, x - s < n); }
static uint64_t at(Item *p, uint64_t i, bool c) { return p[vp_ite64(c, i, 0)].v; }
// i items moved so far
static void inv_move(uint64_t i, bool back) {
	Item *src = g_a + g_s, *dst = g_b + g_t;
	// going up items 0..i-1 are moved, going down items g_n-i..g_n-1
	uint64_t lo = g_up ? 0 : g_n - i;
	vp_inv(i <= g_n, "no more than the range");
	bool done = in(g_q, lo, i);
	vp_inv(vp_implies(done, at(dst, g_q, done) == g_y), "moved elements keep their values and order");
	vp_inv(vp_implies(!done, at(src, g_q, !done) == g_y), "the others are untouched");
	bool s = vp_and(in(g_k, g_s, g_n), !in(g_k, g_s + lo, i)), t = in(g_k, g_t + lo, i);
	if (g_same) vp_inv(g_live == vp_or(s, t), "exactly the elements in place are alive");
	else vp_inv(g_live == (g_pb ? t : s), "exactly the elements in place are alive");
	vp_inv(vp_and(g_news == g_n, vp_implies(!back, g_born == i + g_b0)), "no element is lost or duplicated");
}
//@loop ObjManipNonPOD<Item>::move #0 => up_inv
extern "C" void up_inv(uint64_t k) {
	if (!g_undo) inv_move(k, false);
	else { vp_inv(k <= g_thrown - 1, "no more than were moved"); inv_move(g_up ? g_thrown - 1 - k : g_thrown - 1 - k, true); }
}
//@loop ObjManipNonPOD<Item>::move #1 => down_inv
extern "C" void down_inv(uint64_t k) {
	if (!g_undo) inv_move(k, false);
	else { vp_inv(k <= g_thrown - 1, "no more than were moved"); inv_move(g_thrown - 1 - k, true); }
}
static void start(bool same, bool up, bool pb) {
	g_same = same; g_up = up; g_pb = pb; g_thrown = 0; g_undo = false; g_b0 = 0;
	g_cap = vp_range(1, lim()); g_n = vp_range(0, lim()); g_s = vp_range(0, lim()); g_t = vp_range(0, lim());
	vp_assume(vp_and(g_s + g_n <= g_cap, g_t + g_n <= g_cap));
	g_a = block(); g_b = same ? g_a : block();
	if (same) vp_assume(up ? g_t < g_s : g_t > g_s);
	else vp_assume(up == (g_b + g_t < g_a + g_s));
	g_k = vp_range(0, lim()); vp_assume(g_k < g_cap);
	g_P = (pb ? g_b : g_a) + g_k; g_live = vp_and(!pb, in(g_k, g_s, g_n)); g_news = g_n; g_born = 0;
	if (!vp_symbolic()) { delete g_set; g_set = 0; for (uint64_t i = 0; i < g_n; i++) new (g_a + g_s + i) Item(vp_u64()); g_news = g_n; g_born = 0; }
	g_q = vp_range(0, lim()); vp_assume(g_q < g_n); g_y = g_a[g_s + g_q].v;
}
static void mv(bool same, bool up, bool pb) {
	start(same, up, pb);
	M::move(g_a + g_s, g_n, g_b + g_t);
	vp_assert(g_b[g_t + g_q].v == g_y, "the elements arrive in order");
	bool t = in(g_k, g_t, g_n);
	if (vp_symbolic()) vp_assert(g_live == (same || pb ? t : false), "exactly the target holds elements");
	else for (uint64_t i = 0; i < g_n; i++) vp_assert(g_set->count(g_b + g_t + i), "exactly the target holds elements");
	vp_assert(g_news == g_n, "none lost, none duplicated");
	vp_cover("moved");
}
//@harness c12_move_up lia=1500
VP_HARNESS(c12_move_up) { mv(true, true, false); }
//@harness c12_move_down lia=1500
VP_HARNESS(c12_move_down) { mv(true, false, false); }
//@harness c12_move_other_src lia=1500
VP_HARNESS(c12_move_other_src) { mv(false, vp_choice(2), false); }
//@harness c12_move_other_dst lia=1500
VP_HARNESS(c12_move_other_dst) { mv(false, vp_choice(2), true); }
// a move that throws is undone
static void mvt(bool same, bool up, bool pb) {
	start(same, up, pb);
	g_born = g_b0 = 1; g_maythrow = true;   // g_thrown - 1 elements were moved
	bool thrown = false;
	try { M::move(g_a + g_s, g_n, g_b + g_t); } catch (int) { thrown = true; }
	g_maythrow = false;
	if (!thrown) vp_end();
	vp_assert(g_a[g_s + g_q].v == g_y, "the elements are back in order");
	bool t = in(g_k, g_s, g_n);
	if (vp_symbolic()) vp_assert(g_live == (pb ? false : t), "exactly the source holds elements");
	else for (uint64_t i = 0; i < g_n; i++) vp_assert(g_set->count(g_a + g_s + i), "exactly the source holds elements");
	vp_assert(g_news == g_n, "none lost, none duplicated");
	vp_cover("thrown");
}
//@harness c12_move_up_throws lia=1500
VP_HARNESS(c12_move_up_throws) { mvt(true, true, false); }
//@harness c12_move_down_throws lia=1500
VP_HARNESS(c12_move_down_throws) { mvt(true, false, false); }
//@harness c12_move_other_src_throws lia=1500
VP_HARNESS(c12_move_other_src_throws) { mvt(false, vp_choice(2), false); }
//@harness c12_move_other_dst_throws lia=1500
VP_HARNESS(c12_move_other_dst_throws) { mvt(false, vp_choice(2), true); }
// ---- destruction: backwards, each once
//@loop ObjManipNonPOD<Item>::destruct => des_inv
static uint64_t g_made;    // elements there were to destroy
extern "C" void des_inv(uint64_t i) {
	if (g_undo) g_made = g_thrown - 1;
	vp_inv(i <= g_made, "no more than the range");
	vp_inv(vp_and(g_live == vp_or(in(g_k, g_s, g_made - i), in(g_k, g_s + g_n, g_t)), g_news == g_t + g_made - i), "exactly the elements visited are destroyed");
}
//@harness c12_destruct lia=1500
VP_HARNESS(c12_destruct) {
	// g_n elements to destroy, followed by g_t that stay
	g_cap = vp_range(1, lim()); g_s = vp_range(0, lim()); g_n = vp_range(0, lim()); g_t = vp_range(0, lim());
	vp_assume(g_s + g_n + g_t <= g_cap); g_made = g_n; g_a = block(); g_k = vp_range(0, lim()); vp_assume(g_k < g_cap);
	g_P = g_a + g_k; g_live = in(g_k, g_s, g_n + g_t);
	if (!vp_symbolic()) { delete g_set; g_set = 0; for (uint64_t i = 0; i < g_n + g_t; i++) new (g_a + g_s + i) Item(vp_u64()); }
	g_news = g_n + g_t;
	M::destruct(g_a + g_s, g_n);
	vp_assert(g_news == g_t && (!vp_symbolic() || g_live == in(g_k, g_s + g_n, g_t)), "exactly the elements of the range are destroyed");
	if (!vp_symbolic()) for (uint64_t i = 0; i < g_t; i++) vp_assert(g_set->count(g_a + g_s + g_n + i), "the others stay");
}
// ---- construction: all, or none when a constructor throws
static Item *g_o; static uint64_t g_ov; static const Item *g_from;
static bool ctor_inv(uint64_t i) {
	vp_inv(i <= g_n, "no more than the range");
	vp_inv(vp_and(g_live == in(g_k, g_s, i), vp_and(g_news == i, g_born == i + 1)), "exactly the elements visited exist");
	bool done = in(g_q, 0, i);
	vp_inv(vp_implies(done, at(g_a + g_s, g_q, done) == g_ov), "the elements hold the value");
	return true;
}
//@loop ObjManipNonPOD<Item>::construct => con_inv
extern "C" void con_inv(uint64_t i) { ctor_inv(i); }
//@loop ObjManipNonPOD<Item>::copy => copy_inv
extern "C" void copy_inv(uint64_t i) { ctor_inv(i); }
static void ctor(int how) {
	g_cap = vp_range(1, lim()); g_s = vp_range(0, lim()); g_n = vp_range(0, lim()); g_t = 0;
	vp_assume(g_s + g_n <= g_cap); g_a = block(); g_k = vp_range(0, lim()); vp_assume(g_k < g_cap);
	g_P = g_a + g_k; g_live = false; g_undo = false;
	g_q = vp_range(0, lim()); vp_assume(g_q < g_n);
	char buf[8]; Item *o = (Item *)buf; Item *from = 0;
	if (!vp_symbolic()) { delete g_set; g_set = 0; }
	if (how == 0) g_ov = 0;
	else if (how == 1) { g_ov = vp_u64(); new (o) Item(g_ov); }
	else {
		from = vp_symbolic() ? (Item *)vp_array(8, g_n) : (Item *)operator new(8 * g_n);
		if (!vp_symbolic()) for (uint64_t i = 0; i < g_n; i++) new (from + i) Item(vp_u64());
		g_ov = from[g_q].v;
	}
	g_news = 0; g_born = 1; g_maythrow = how != 0;
	bool thrown = false;
	try { if (how == 0) M::construct(g_a + g_s, g_n); else if (how == 1) M::construct(g_a + g_s, g_n, *o); else M::copy(from, g_n, g_a + g_s); }
	catch (int) { thrown = true; }
	g_maythrow = false;
	if (thrown) { vp_assert(g_news == 0 && (!vp_symbolic() || !g_live), "when a constructor throws no element is left behind"); vp_cover("thrown"); }
	else {
		vp_assert(g_news == g_n && (!vp_symbolic() || g_live == in(g_k, g_s, g_n)), "exactly the range holds elements");
		vp_assert(g_a[g_s + g_q].v == g_ov, "the elements hold the value");
		vp_cover("built");
	}
}
//@harness c12_construct lia=1500 
VP_HARNESS(c12_construct) { g_made = 0; ctor(0); }
//@harness c12_construct_value lia=1500
VP_HARNESS(c12_construct_value) { g_made = 0; ctor(1); }
//@harness c12_copy_range lia=1500
VP_HARNESS(c12_copy_range) { g_made = 0; ctor(2); }
// ---- exchange
//@loop ObjManipNonPOD<Item>::swap => swap_inv
//@loop ObjManipPOD<unsigned long>::swap => swap_inv
static uint64_t g_z;
extern "C" void swap_inv(uint64_t i) {
	vp_inv(i <= g_n, "no more than the range");
	bool done = g_q < i;
	vp_inv(vp_and(at(g_a, g_q, true) == vp_ite64(done, g_z, g_y), at(g_b, g_q, true) == vp_ite64(done, g_y, g_z)), "exchanged up to here");
}
template<class T> static void swp() {
	g_n = vp_range(1, lim()); g_q = vp_range(0, lim()); vp_assume(g_q < g_n); g_cap = g_n; g_P = 0; g_live = false;
	g_a = block(); g_b = block();
	if (!vp_symbolic()) { delete g_set; g_set = 0; for (uint64_t i = 0; i < g_n; i++) { new (g_a + i) Item(vp_u64()); new (g_b + i) Item(vp_u64()); } }
	g_y = g_a[g_q].v; g_z = g_b[g_q].v; 
	ObjManip<T>::swap((T *)g_a, (T *)g_b, g_n);
	vp_assert(g_a[g_q].v == g_z && g_b[g_q].v == g_y, "the elements are exchanged");
}
//@harness c12_swap_range lia=1500
VP_HARNESS(c12_swap_range) { swp<Item>(); }
//@harness c12_pod_swap lia=1500
VP_HARNESS(c12_pod_swap) { swp<unsigned long>(); }
//@loop ObjManipPOD<unsigned long>::construct => pod_inv
extern "C" void pod_inv(uint64_t i) {
	vp_inv(i <= g_n, "no more than the range");
	bool done = g_q < i;
	vp_inv(vp_implies(done, at(g_a, g_q, done) == g_y), "filled up to here");
}
//@harness c12_pod_construct lia=1500
VP_HARNESS(c12_pod_construct) {
	g_n = vp_range(1, lim()); g_q = vp_range(0, lim()); vp_assume(g_q < g_n); g_cap = g_n; g_a = block(); g_P = 0; g_live = false;
	unsigned long v = vp_u64(); g_y = v;
	ObjManip<unsigned long>::construct(g_a, g_n, v);
	vp_assert(g_a[g_q].v == v, "every element holds the value");
}
