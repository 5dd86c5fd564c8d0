// C16: counted pointers. Two pointers over two objects with any number of further
// references; every operation keeps: counter = number of references, destroyed exactly at zero.
#include "vp.h"
#include <exception>
#include <stdlib.h>
#include <new>
#define protected public
#define private public
#include "lightspeed/base/types.h"
#include "lightspeed/base/memory/refCntPtr.h"
#include "lightspeed/base/memory/refCntPtr.cpp"
#include "lightspeed/base/memory/stdFactory.h"
#undef private
#undef protected
using namespace LightSpeed;
//@function RefCntObj (addRef, release, isShared, setStaticObj), RefCntPtr (constructors, destructor, operator= copying and moving, clear, attach, detach, create, swap, manualAddRef, manualRelease, isShared), AllocPointer (clear, detach, swap), lockInc, lockDec
//@assume an object has fewer than 2^32 - 2^28 references (the debug build reserves one counter value)
struct Obj: RefCntObj { int id; RefCntPtr<Obj> next; Obj(); Obj(const Obj &o); ~Obj(); };
typedef RefCntPtr<Obj> P;
static int g_dead[3], g_made;
Obj::Obj():id(2) { g_made++; }
Obj::Obj(const Obj &o):RefCntObj(),id(2) { g_made++; vp_assert(o.id < 2, "copied from a live object"); }
Obj::~Obj() { vp_assert(g_dead[id] == 0, "destroyed once"); g_dead[id]++; }
static Obj *g_o[2]; static int64_t g_oth[2];
// slot: null, first or second object
static Obj *pick() { int k = vp_choice(3); return k == 2 ? 0 : g_o[k]; }
static void raw(P &p, Obj *o) { *(Obj **)&p.ptr = o; }
struct Slots { union { char mem[2][sizeof(P)]; void *align; }; P &a; P &b; Slots():a(*(P *)mem[0]),b(*(P *)mem[1]) { new(&a) P; new(&b) P; } };
static void setup(P &a, P &b) {
	g_dead[0] = g_dead[1] = g_dead[2] = 0; g_made = 0;
	for (int i = 0; i < 2; i++) { g_o[i] = new Obj; g_o[i]->id = i; g_oth[i] = vp_range(0, 0xE0000000u); }
	g_made = 0;
	raw(a, pick()); raw(b, pick());
	for (int i = 0; i < 2; i++) { int64_t mine = (a.ptr == g_o[i]) + (b.ptr == g_o[i]); vp_assume(mine + g_oth[i] > 0); g_o[i]->counter = g_oth[i] + mine; }
}
static void ends(Obj *a, Obj *b, const char *) {
	for (int i = 0; i < 2; i++) {
		int64_t n = g_oth[i] + (a == g_o[i]) + (b == g_o[i]);
		vp_assert((g_dead[i] == 1) == (n == 0), "destroyed exactly when the last reference goes away");
		if (g_dead[i] == 0) { vp_assert(g_o[i]->counter == n, "the counter is the number of references"); vp_assert(g_o[i]->isShared() == (n > 1), "shared when more than one reference"); }
		else vp_cover("destroyed");
	}
}
//@harness c16_ops
VP_HARNESS(c16_ops) {
	Slots s; P &a = s.a, &b = s.b; setup(a, b); Obj *x = a.ptr, *y = b.ptr;
	switch (vp_choice(12)) {
	case 0: { P *c = new P(a); vp_assert(c->ptr == x, "copied"); g_oth[0] += x == g_o[0]; g_oth[1] += x == g_o[1]; ends(x, y, "copy"); vp_cover("copy"); break; }
	case 1: { { P c(a); vp_assert(c.get() == x, "copied"); } ends(x, y, "copy dies"); break; }
	case 2: { a = b; vp_assert(a.ptr == y && b.ptr == y, "assigned"); ends(y, y, "assign"); vp_cover("assigned"); break; }
	case 3: { P &r = a; a = r; vp_assert(a.ptr == x, "unchanged"); ends(x, y, "self"); break; }
	case 4: { P c((P &&)a); vp_assert(c.ptr == x && a.ptr == 0, "moved"); ends(x, y, "move"); raw(c, 0); break; }
	case 5: { a = (P &&)b; vp_assert(a.ptr == y && b.ptr == 0, "moved"); ends(y, 0, "move assign"); vp_cover("moved"); break; }
	case 6: { P &r = a; a = (P &&)r; vp_assert(a.ptr == x, "unchanged"); ends(x, y, "self move"); break; }
	case 7: { a = nil; vp_assert(a.ptr == 0, "null"); ends(0, y, "null"); break; }
	case 8: { a = y; vp_assert(a.ptr == y, "assigned"); ends(y, y, "raw"); break; }
	case 9: { a.clear(); vp_assert(a.ptr == 0, "null"); ends(0, y, "clear"); break; }
	case 10: { a.~P(); ends(0, y, "destroyed"); break; }
	case 11: { a.swap(b); vp_assert(a.ptr == y && b.ptr == x, "swapped"); ends(x, y, "swap"); break; }
	}
}
//@harness c16_owner
VP_HARNESS(c16_owner) {
	Slots s; P &a = s.a, &b = s.b; setup(a, b); Obj *x = a.ptr, *y = b.ptr;
	switch (vp_choice(9)) {
	case 0: { a.attach(y); vp_assert(a.ptr == y, "attached"); ends(y, y, "attach"); vp_cover("attached"); break; }
	case 1: { a.attach(x); vp_assert(a.ptr == x, "attached"); ends(x, y, "attach self"); break; }
	case 2: { a.create(); vp_assert(a.ptr && a.ptr->id == 2 && a.ptr->counter == 1 && g_made == 1, "a new object with one reference"); ends(0, y, "create"); break; }
	case 3: { if (!x) break; a.create(*x); vp_assert(a.ptr && a.ptr->id == 2 && a.ptr->counter == 1 && g_made == 1, "a new object with one reference"); ends(0, y, "create"); break; }
	case 4: { Obj *d = a.detach(); vp_assert(d == x && a.ptr == 0, "given away"); for (int i = 0; i < 2; i++) { vp_assert(g_dead[i] == 0, "not destroyed"); vp_assert(g_o[i]->counter == g_oth[i] + (y == g_o[i]), "the reference is given up"); } break; }
	case 5: { a.manualAddRef(); if (x) g_oth[x->id]++; ends(x, y, "manual"); a.manualRelease(); if (x) g_oth[x->id]--; ends(x, y, "manual"); break; }
	case 6: { vp_assert(a.isShared() == (x && g_oth[x->id] + 1 + (x == y) > 1), "shared"); break; }
	case 7: { P c(x); vp_assert(c.ptr == x, "from a raw pointer"); if (x) g_oth[x->id]++; ends(x, y, "raw"); if (x) g_oth[x->id]--; break; }
	case 8: { P c; P d(nil); vp_assert(c.ptr == 0 && d.ptr == 0, "null"); ends(x, y, "null"); break; }
	}
}
// the object that goes away holds the reference which is assigned
//@harness c16_member
VP_HARNESS(c16_member) {
	Slots s; P &a = s.a, &b = s.b; setup(a, b); vp_assume(a.ptr == g_o[0] && b.ptr == 0);
	raw(g_o[0]->next, g_o[1]);    // one of the other references to the second object
	vp_assume(g_oth[1] > 0); int64_t n = g_oth[1] - 1; bool last = g_oth[0] == 0;
	bool mv = vp_choice(2);
	if (mv) a = (P &&)a.ptr->next; else a = a.ptr->next;
	vp_assert(a.ptr == g_o[1], "the member is assigned");
	vp_assert((g_dead[0] == 1) == last && g_dead[1] == 0, "the owner is destroyed when it was the last reference; the member lives");
	vp_assert(g_o[1]->counter == n + 1 + (!last && !mv), "the counter is the number of references");
	if (last) vp_cover("owner destroyed"); else vp_cover("owner stays");
}
//@harness c16_static
VP_HARNESS(c16_static) {
	g_dead[2] = 0; Obj o; o.setStaticObj();
	{ P p(&o); P q(p); p = nil; }
	vp_assert(g_dead[2] == 0 && o.counter == 1, "a static object is not destroyed by pointers");
}
// atomic steps from any value
//@harness c16_atomic
VP_HARNESS(c16_atomic) {
	atomic v; uint64_t x = vp_u64(); v = x; RefCntObj o;
	vp_assert((uint64_t)lockInc(v) == x + 1 && (uint64_t)v == x + 1, "one more");
	vp_assert((uint64_t)lockDec(v) == x && (uint64_t)v == x, "one less");
	vp_assert(o.counter == 0, "no reference at first");
	uint64_t n = vp_range(1, (uint64_t)1 << 31); o.counter = n; o.addRef(); vp_assert(o.counter == (int64_t)n + 1, "one more"); vp_assert(!o.release(), "not the last");
	vp_assert(o.release() == (n == 1), "the last one is reported");
}
