// C16: weak references (with any number of other threads holding locks), shared pointers
#include "vp.h"
#include <exception>
#include <stdlib.h>
#include <new>
#define protected public
#define private public
#include "lightspeed/base/types.h"
#include "lightspeed/base/memory/weakref.h"
#include "lightspeed/base/memory/sharedPtr.h"
#include "lightspeed/base/memory/refCntPtr.cpp"
#include "lightspeed/base/memory/dynobject.cpp"
#include "lightspeed/base/memory/runtimeAlloc.h"
#undef private
#undef protected
#include "lightspeed/mt/threadSleeper.h"
using namespace LightSpeed;
//@function WeakRef (lockInternal, unlockInternal, lock, setPtr, setNull), WeakRefTarget, WeakRefPtr (constructors, assignment, destructor), SharedPtr (constructors, operator=, destructor), SharedResource (makeAssign, removeItself, isShared, count)
//@assume fewer than 2^61 simultaneous locks of one weak reference; atomic accesses are sequentially consistent
class Mem: public IRuntimeAlloc {
public:
	int live; Mem():live(0) {}
	virtual void *alloc(natural n) { live++; return ::operator new(n); }
	virtual void dealloc(void *p, natural) { live--; ::operator delete(p); }
	virtual void *alloc(natural n, IRuntimeAlloc *&o) { o = this; return alloc(n); }
	virtual IRuntimeAlloc *clone() const { return 0; }
	virtual IRuntimeAlloc *clone(IRuntimeAlloc &) const { return 0; }
	virtual natural getObjectSize() const { return sizeof(*this); }
	virtual bool isCloneable() const { return false; }
	virtual bool isTypeOf(const std::type_info &) const { return false; }
};
static Mem g_mem; static int g_woken;
struct Sleeper: IThreadSleeper { virtual void wakeUp(natural) throw() { g_woken++; } };
static Sleeper *g_sl; typedef WeakRef<int> W; typedef W::Pointer WP;
static WP *g_p; static uint64_t g_L; static bool g_enter, g_waits;
static const uint64_t IN = (uint64_t)1 << 63, LEFT = (uint64_t)1 << 62;
namespace LightSpeed {
IRuntimeAlloc &getWeakRefAllocator() { return g_mem; }
// other threads act between the steps of setNull
RefCntPtr<IThreadSleeper> getCurThreadSleepingObj() {
	if (g_p && g_enter) { g_L = vp_range(0, (uint64_t)1 << 61); g_p->lockCount = IN + g_L; }   // they lock and unlock while it is valid
	return RefCntPtr<IThreadSleeper>(g_sl);
}
void threadHalt() throw() {
	vp_assert(g_p->lockCount == (int64_t)g_L && g_L != 0, "waits only for locks that are held");
	vp_assert(g_p->clearOutNotify == g_sl, "the last unlock will wake this thread"); g_waits = true;
	uint64_t n = vp_range(0, (uint64_t)1 << 61); vp_assume(n <= g_L); g_L = n; g_p->lockCount = n;         // some are unlocked
}
}
//@loop WeakRef<int>::setNull => null_inv
extern "C" void null_inv(uint64_t) { vp_cand(g_L); }
static void begin(uint64_t L) { g_sl = new Sleeper; g_sl->addRef(); g_woken = 0; g_enter = g_waits = false; g_p = 0; g_L = L; }
static int g_x;
//@harness c16_weak_clear kind=inductive
VP_HARNESS(c16_weak_clear) {
	begin(vp_range(0, (uint64_t)1 << 61));
	WeakRefTarget<int> t(&g_x); W r(t); g_p = t.ref.get(); g_enter = true;
	vp_assert(g_p->ptr == &g_x && (uint64_t)g_p->lockCount == IN, "a new reference is valid and not locked");
	g_p->lockCount = IN + g_L; bool held = g_L != 0;
	t.setNull();
	g_enter = false;
	vp_assert(g_L == 0, "the target is given up only when nobody holds it");
	vp_assert((uint64_t)g_p->lockCount == LEFT, "later locks cannot reach zero");
	vp_assert(r.ref.get() == g_p && t.ref.get() != g_p, "references stay");
	{ WeakRefPtr<int> p = r.lock(); vp_assert(p.get() == 0, "nothing is yielded afterwards"); }
	vp_assert(g_woken == 0, "and nobody is woken");
	if (held) vp_cover("was held"); else vp_cover("was free");
	if (g_waits) vp_cover("waited");
	WP *keep = g_p; t.setNull(); vp_assert(keep == g_p && (uint64_t)g_p->lockCount == LEFT, "clearing again changes nothing");
}
//@harness c16_weak_lock
VP_HARNESS(c16_weak_lock) {
	begin(vp_range(0, (uint64_t)1 << 60));
	WeakRefTarget<int> t(&g_x); W r(t); W q; g_p = r.ref.get();
	g_p->lockCount = IN + g_L;
	{
		WeakRefPtr<int> p = r.lock();
		vp_assert(p.get() == &g_x, "the object while it lives");
		vp_assert((uint64_t)g_p->lockCount == IN + g_L + 1, "one more lock");
		{ WeakRefPtr<int> s(p); vp_assert(s.get() == &g_x && (uint64_t)g_p->lockCount == IN + g_L + 2, "a copy locks too"); }
		vp_assert((uint64_t)g_p->lockCount == IN + g_L + 1, "one less lock");
		WeakRefTarget<int> t2((int *)0 + 64); WeakRefPtr<int> u(t2);
		WP *p2 = t2.ref.get(); vp_assert((uint64_t)p2->lockCount == IN + 1, "locked");
		switch (vp_choice(3)) {
		case 0: p = u; vp_assert(p.get() == (int *)0 + 64 && (uint64_t)p2->lockCount == IN + 2 && (uint64_t)g_p->lockCount == IN + g_L, "an assignment moves the lock"); break;
		case 1: u = p; vp_assert(u.get() == &g_x && (uint64_t)p2->lockCount == IN && (uint64_t)g_p->lockCount == IN + g_L + 2, "an assignment moves the lock"); break;
		case 2: { WeakRefPtr<int> &v = p; p = v; vp_assert(p.get() == &g_x && (uint64_t)g_p->lockCount == IN + g_L + 1, "nothing changes"); break; }
		}
		if (vp_bool()) { W w2(t2); WeakRefPtr<int> e(w2); vp_assert(e.get() == (int *)0 + 64, "through a copy"); }
		WeakRefPtr<int> back(r); p = back; u = back;       // t2 is not locked when it goes away
	}
	vp_assert((uint64_t)g_p->lockCount == IN + g_L, "as many unlocks as locks");
	g_p->lockCount = IN;
}
// the last unlock after clearing wakes the waiting thread, exactly once
//@harness c16_weak_wake
VP_HARNESS(c16_weak_wake) {
	begin(0); WeakRefTarget<int> t(&g_x); W r(t); WP *p = r.ref.get(); uint64_t n = vp_range(1, (uint64_t)1 << 61);
	p->lockCount = n; p->clearOutNotify = g_sl;     // cleared while n locks are held
	vp_assert(r.lockInternal() == 0, "no object any more"); r.unlockInternal();
	vp_assert(g_woken == 0, "still held"); r.unlockInternal();
	vp_assert(g_woken == (n == 1), "woken by the last unlock");
	p->lockCount = LEFT; vp_cover("done");
}
//@harness c16_weak_life
VP_HARNESS(c16_weak_life) {
	begin(0); g_mem.live = 0;
	{ WeakRefTarget<int> t(&g_x); { W a(t), b(a); W c; c = b; vp_assert(g_mem.live == 1, "one shared record"); int y; t = &y; vp_assert(a.lock().get() == 0 && c.lock().get() == 0, "invalidated"); vp_assert(W(t).lock().get() == &y, "the new target"); } vp_assert(g_mem.live == 1, "the old record is released"); t = 0; vp_assert(W(t).lock().get() == 0, "cleared"); }
	vp_assert(g_mem.live == 0, "no record is left");
}
// ---------------------------------------------------------------- shared pointers: rings of up to three sharers
struct Obj { int id; SharedPtr<Obj> next; Obj(int id):id(id) {} ~Obj(); };
typedef SharedPtr<Obj> S; static int g_dead[3];
Obj::~Obj() { g_dead[id]++; vp_assert(g_dead[id] == 1, "destroyed once"); }
//@harness c16_shared kind=bounded bound=any_sharing_of_four_pointers_one_operation
VP_HARNESS(c16_shared) {
	g_dead[0] = g_dead[1] = g_dead[2] = 0;
	Obj *o[3] = { new Obj(0), new Obj(1), new Obj(2) }; int at[4] = { 0, 1, 2, -1 };
	{
		S p[4] = { S(o[0]), S(o[1]), S(o[2]), S() };
		for (int i = 1; i < 4; i++) { int w = vp_choice(i + 1); if (w < i) { p[i] = p[w]; at[i] = at[w]; } }
		for (int step = 0; step < 1; step++) {
			int i = vp_choice(4), j = vp_choice(4);
			switch (vp_choice(3)) {
			case 0: { S &r = p[j]; p[i] = r; at[i] = at[j]; break; }
			case 1: p[i] = nil; at[i] = -1; break;
			case 2: { S c(p[i]); p[j] = c; at[j] = at[i]; break; }
			}
			for (int k = 0; k < 3; k++) { int n = 0; for (int q = 0; q < 4; q++) n += at[q] == k; vp_assert(g_dead[k] == (n == 0), "destroyed exactly when the last reference goes away"); }
			for (int q = 0; q < 4; q++) vp_assert(p[q].get() == (at[q] < 0 ? 0 : o[at[q]]), "every pointer has its object");
		}
	}
	for (int k = 0; k < 3; k++) vp_assert(g_dead[k] == 1, "destroyed in the end"); vp_cover("done");
}
//@harness c16_shared_member
VP_HARNESS(c16_shared_member) {
	g_dead[0] = g_dead[1] = 0; Obj *a = new Obj(0), *b = new Obj(1); a->next = S(b);
	{ S p(a); p = p->next; vp_assert(p.get() == b && g_dead[0] == 1 && g_dead[1] == 0, "the owner is destroyed, the member lives"); }
	vp_assert(g_dead[1] == 1, "destroyed in the end");
}
