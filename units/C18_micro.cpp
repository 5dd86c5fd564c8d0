// C18: MicroLock (Synchronized<MicroLock>), SpinLock, SpinLockRecursive, FastLockR over the contract of FastLock: thread-modular as in C18_fast.cpp
#include "vp.h"
#include <stdlib.h>
#include <new>
#define protected public
#define private public
#include "lightspeed/base/types.h"
#include "lightspeed/base/memory/refCntPtr.h"
#include "lightspeed/base/memory/refCntPtr.cpp"
#include "lightspeed/mt/threadSleeper.h"
#include "lightspeed/base/sync/synchronize.h"
#include "lightspeed/mt/microlock.h"
#include "lightspeed/mt/fastlock.h"
#include "lightspeed/mt/spinlock.h"
#undef private
#undef protected
using namespace LightSpeed;
//@function Synchronized<MicroLock> (lock, unlock), SpinLock (lock, tryLock, unlock, give, steal, isOwned), SpinLockRecursive, FastLockR (lock, tryLock, unlock, unlockSaveRecusion, lockRestoreRecursion)
//@assume atomic accesses are sequentially consistent; the other threads use a lock only through its interface, whose steps are the ones judged here; thread ids are distinct and not zero; nobody gives a spin lock to or steals it from this thread
enum { OUT, WAITS, HOLDS }; enum { FREE, OTHER, MINE };
static int me, holder; static bool on;
static atomicValue g_id = 77; static uint64_t other_id() { uint64_t v = vp_u64(); vp_assume(v != 0 && v != (uint64_t)g_id); return v; }
// ---------------------------------------------------------------- MicroLock
typedef MicroLockData Slot; typedef Synchronized<MicroLock> Sync;
struct Sleeper: IThreadSleeper { virtual void wakeUp(natural) throw(); };
static MicroLock *L; static Slot *M, *W, *q0, *T; static uint64_t pos[2], g_k; static bool passed; static Slot *g_s, *g_k0, *g_e; static int woken; static Sleeper *g_ws, *g_ms;
void Sleeper::wakeUp(natural) throw() { vp_assert(passed && this == g_ws, "the thread which got the lock is woken"); vp_assert(counter > 0, "its sleeping object lives"); woken++; }
static Slot *top(Slot *bottom) { if (vp_bool()) return bottom; pos[0] = vp_range(1, (uint64_t)1 << 40); g_k = 0; return W; }
static void env() {
	if (me == OUT) { if (vp_bool()) { holder = FREE; L->owner = 0; } else { holder = OTHER; L->owner = top(T); } }
	else if (me == WAITS) {
		if (L->owner != M) L->owner = W; else L->owner = top(M);
		if (vp_bool()) { M->next = 0; me = HOLDS; holder = MINE; }
	} else if (!passed) { if (L->owner == M) L->owner = top(M); else if (vp_bool()) L->owner = W + 2; }
	q0 = L->owner;
}
extern "C" void micro_step(void *a, int kind) {
	if (!on) return;
	if (a == (void *)&L->owner) {
		if ((kind & 1) == 0) { env(); return; }
		if (kind == 1) return;
		vp_assert(kind == 5, "the queue changes by an atomic operation only");
		Slot *q = L->owner; g_k0 = q0;
		if (q == q0) return;
		if (q0 == 0) { vp_assert(holder == FREE && me == OUT, "the lock is taken only when it is free"); vp_assert(q == M, "its own slot"); vp_assert(M->next == 0, "the slot of the holder is the last"); me = HOLDS; holder = MINE; }
		else if (q == 0) { vp_assert(me == HOLDS && q0 == M, "the lock is freed by its holder when nobody waits"); me = OUT; holder = FREE; }
		else { vp_assert(me == OUT, "one slot per thread"); vp_assert(q->next == q0, "the new slot is linked to the slots that wait"); vp_assert(q == M, "its own slot"); me = WAITS; }
		return;
	}
	if (kind == 3 && a == (void *)&g_s->next) g_e = g_s->next;
	if (M && a == (void *)&M->next) { if (kind == 0 && me == WAITS) env(); if (kind >= 2) vp_assert(me == OUT, "a slot in the queue is left to the thread that passes the lock"); return; }
	for (int k = 0; k < 3; k++) {
		if (a != (void *)&W[k].next && a != (void *)&W[k].owner) continue;
		vp_concrete((char *)a - (char *)W);
		vp_assert(me == HOLDS && !passed, "only the holder looks at waiting slots");
		if (a == (void *)&W[k].owner) { vp_assert(kind < 2, "the sleeping object is left alone"); continue; }
		if (kind == 0) {
			if (k == 2) { W[2].next = W; g_k = 0; }
			else if (pos[k] == 1) { W[k].next = M; g_k = k; }
			else { W[k].next = &W[1 - k]; pos[1 - k] = pos[k] - 1; g_k = 1 - k; }
		} else if (kind == 3) {
			vp_assert(W[k].next == 0, "the ownership is given"); vp_assert(k < 2, "not the last that came"); vp_assert(pos[k & 1] == 1, "to the one that waits longest");
			passed = true; holder = OTHER; W[k].owner = RefCntPtr<IThreadSleeper>(nil);
		}
	}
}
namespace LightSpeed {
RefCntPtr<IThreadSleeper> getCurThreadSleepingObj() { return RefCntPtr<IThreadSleeper>(g_ms); }
void threadHalt() throw() { }
atomicValue getCurThreadId() { return g_id; }
}
//@preempt LightSpeed::Synchronized<LightSpeed::MicroLock, LightSpeed::Empty>::(lock|unlock)\( => micro_step
//@preempt (LightSpeed::MicroLockData\* )?LightSpeed::lockCompareExchangePtr<LightSpeed::MicroLockData> => micro_step
static void begin() {
	on = false; L = new MicroLock; W = (Slot *)vp_alloc(3 * sizeof(Slot)); for (int i = 0; i < 3; i++) new(W + i) Slot; T = new Slot; M = 0; me = OUT; holder = OTHER; passed = false; woken = 0; g_k = 0; pos[0] = pos[1] = 1;
	g_ws = new Sleeper; for (int i = 0; i < 3; i++) W[i].owner = g_ws; g_ms = new Sleeper; g_ms->addRef(); on = true;
}
//@loop LightSpeed::Synchronized<LightSpeed::MicroLock, LightSpeed::Empty>::lock #0 => q_inv
extern "C" void q_inv(uint64_t) { vp_inv((uint32_t)me <= HOLDS, "state"); vp_inv((me == OUT) == (g_k0 != g_e), "enqueued exactly when the expected top was there"); vp_inv((me == HOLDS) == (holder == MINE), "holder"); vp_inv(vp_implies(me != OUT, (me == HOLDS) == (M->next == 0)), "passed"); vp_inv(vp_implies(me == OUT, M->next == g_e), "link"); vp_candp(g_k0); vp_candp(g_e);  vp_candp(M); vp_candp(L->owner); }
//@loop LightSpeed::Synchronized<LightSpeed::MicroLock, LightSpeed::Empty>::lock #1 => w_inv
extern "C" void w_inv(uint64_t) { vp_inv((uint32_t)me - WAITS <= HOLDS - WAITS, "in the queue"); vp_inv((me == HOLDS) == (M->next == 0), "passed"); vp_inv((me == HOLDS) == (holder == MINE), "holder"); vp_candp(M); }
//@loop LightSpeed::Synchronized<LightSpeed::MicroLock, LightSpeed::Empty>::unlock => u_inv
extern "C" void u_inv(uint64_t) { vp_inv(me == HOLDS && !passed, "still the holder"); vp_inv(g_k < 3, "slot"); vp_candp(&W[g_k]); vp_inv(pos[0] >= 1 && pos[1] >= 1, "place"); }
//@harness c18_micro_lock kind=inductive native=no
VP_HARNESS(c18_micro_lock) {
	begin(); Sync *s = (Sync *)vp_alloc(sizeof(Sync)); g_s = s; g_e = g_k0 = 0; M = s; new((void *)static_cast<MicroLockData *>(s)) MicroLockData; new((void *)s) Sync(*L);
	vp_assert(me == HOLDS && holder == MINE, "this thread alone holds the lock"); vp_assert(M == s && s->next == 0, "and its slot is the last"); vp_cover("taken");
}
//@harness c18_micro_unlock kind=inductive native=no
VP_HARNESS(c18_micro_unlock) {
	begin(); on = false; M = W; W->next = 0; g_s = W; g_e = g_k0 = 0; me = HOLDS; holder = MINE; Sync *s = new Sync(*L); on = true; M = s; me = HOLDS; holder = MINE; L->owner = M;
	s->unlock();
	if (passed) { vp_assert(woken == 1, "the new owner is woken once"); vp_cover("passed"); }
	else { vp_assert(me == OUT && L->owner == 0, "free"); vp_assert(woken == 0, "nobody to wake"); vp_cover("freed"); }
}
// ---------------------------------------------------------------- SpinLock
static SpinLockRecursive *P; static uint64_t p0, g_from, g_n0; static int g_me0; static bool g_give; static atomicValue g_to;
static void spin_env() { if (me != HOLDS) { if (vp_bool()) { P->owner = 0; holder = FREE; } else { P->owner = g_from && vp_bool() ? g_from : other_id(); holder = OTHER; } P->recursiveCount = vp_u64(); } p0 = P->owner; }
extern "C" void spin_step(void *a, int kind) {
	if (!on) return;
	if (a == (void *)&P->recursiveCount) { vp_assert(me == HOLDS, "the count belongs to the owner"); return; }
	if (a != (void *)&P->owner) return;
	if ((kind & 1) == 0) { spin_env(); return; }
	uint64_t v = P->owner; if (kind == 1 || (kind == 5 && v == p0)) return;
	if (me == HOLDS) {
		if (v == 0) { me = OUT; holder = FREE; } else if (v != (uint64_t)g_id) { vp_assert(g_give && v == (uint64_t)g_to, "given to the named thread"); me = OUT; holder = OTHER; }
	} else {
		vp_assert(kind == 5, "the lock is taken by an atomic operation only");
		vp_assert(v == (uint64_t)g_id, "taken for this thread"); vp_assert(p0 == 0 || (g_from && p0 == g_from), "taken when it is free"); me = HOLDS; holder = MINE;
	}
}
//@preempt LightSpeed::SpinLock(Recursive)?:: => spin_step
//@preempt LightSpeed::(lockCompareExchange|readAcquire|writeRelease)\( => any_step
//@stub LightSpeed::ThreadId::current => nop
extern "C" ThreadId my_id() { return ThreadId(g_id); }
//@replace LightSpeed::ThreadId::current\( => my_id
static FastLockR *R;
extern "C" void r_step(void *a, int kind);
extern "C" void any_step(void *a, int kind) { if (P) spin_step(a, kind); else r_step(a, kind); }
//@loop LightSpeed::SpinLock(Recursive)?::(lock\(\)|tryLock\(unsigned long\)) => s_inv
extern "C" void s_inv(uint64_t) { vp_inv(me == g_me0, "as before"); vp_inv(vp_implies(me == HOLDS, vp_and(P->recursiveCount == g_n0, P->owner == g_id)), "owned as before"); }
static void spin_begin(bool held) { on = false; P = new SpinLockRecursive; P->owner = held ? g_id : 0; g_me0 = me = held ? HOLDS : OUT; g_n0 = P->recursiveCount; holder = held ? MINE : OTHER; g_from = 0; g_give = false; on = true; }
//@harness c18_spin kind=inductive native=no
VP_HARNESS(c18_spin) {
	bool held = vp_bool(); spin_begin(held); SpinLock &s = *P;
	switch (vp_choice(6)) {
	case 0: { bool r = s.tryLock(); vp_assert(r == (me == HOLDS), "success means ownership"); if (held) vp_assert(r, "an owned lock"); vp_cover("try"); break; }
	case 1: if (!held) { s.lock(); vp_assert(me == HOLDS && holder == MINE, "taken"); vp_cover("lock"); } break;
	case 2: { bool r = s.tryLock(vp_u64()); vp_assert(r == (me == HOLDS) || held, "success means ownership"); vp_cover("try more"); break; }
	case 3: s.unlock(); vp_assert(me == OUT, "released"); vp_cover("unlock"); break;
	case 4: { g_give = true; g_to = other_id(); bool r = s.give(ThreadId(g_to)); vp_assert(r == held && me == OUT, "given by the owner only"); if (held) vp_cover("given"); break; }
	case 5: if (!held) { g_from = other_id(); bool r = s.steal(ThreadId((atomicValue)g_from)); vp_assert(r == (me == HOLDS), "stolen means ownership"); if (r) vp_cover("stolen"); } break;
	}
}
//@harness c18_spin_owned native=no
VP_HARNESS(c18_spin_owned) { bool held = vp_bool(); spin_begin(held); vp_assert(P->isOwned() == held, "the thread knows what it owns"); vp_cover("done"); }
//@harness c18_spinr kind=inductive native=no
VP_HARNESS(c18_spinr) {
	bool held = vp_bool(); spin_begin(held); uint64_t n = held ? vp_range(1, (uint64_t)1 << 60) : 0; if (held) g_n0 = P->recursiveCount = n;
	switch (vp_choice(4)) {
	case 0: { bool r = P->tryLock(); vp_assert(r == (me == HOLDS), "success means ownership"); if (r) { vp_assert(P->recursiveCount == n + 1, "counted"); } if (held) vp_assert(r, "an owned lock"); vp_cover("try"); break; }
	case 1: P->lock(); vp_assert(me == HOLDS && holder == MINE && P->recursiveCount == n + 1, "taken and counted"); vp_cover("lock"); break;
	case 2: P->unlock(); vp_assert((me == HOLDS) == (n > 1), "released after as many unlocks as locks"); if (n > 1) vp_assert(P->recursiveCount == n - 1, "counted"); vp_cover("unlock"); break;
	case 3: { bool r = P->tryLock(vp_u64()); if (r) vp_assert(me == HOLDS && P->recursiveCount == n + 1, "taken and counted"); else vp_assert((me == HOLDS) == held && (!held || P->recursiveCount == n), "nothing changed"); vp_cover("try more"); break; }
	}
}
// ---------------------------------------------------------------- FastLockR over the contract of FastLock
static void r_env() { if (me != HOLDS) { R->ownerThread = vp_bool() ? 0 : other_id(); R->recursiveCount = vp_u64(); } }
extern "C" void r_step(void *a, int kind) {
	if (!on || (a != (void *)&R->ownerThread && a != (void *)&R->recursiveCount)) return;
	if ((kind & 1) == 0) { r_env(); return; }
	if (kind != 1) vp_assert(me == HOLDS, "the owner and the count change only under the lock");
}
//@preempt LightSpeed::FastLockR:: => r_step
extern "C" bool f_try(FastLock *) { r_env(); if (me == HOLDS || vp_bool()) return false; me = HOLDS; return true; }
extern "C" void f_lock(FastLock *) { vp_assert(me != HOLDS, "no wait for a lock of its own"); me = HOLDS; R->ownerThread = 0; R->recursiveCount = vp_u64(); }
extern "C" void f_unlock(FastLock *) { vp_assert(me == HOLDS, "unlocked by the holder"); vp_assert(R->ownerThread != g_id, "no longer the owner when it is released"); me = OUT; r_env(); }
//@replace LightSpeed::FastLock::tryLock\( => f_try
//@replace LightSpeed::FastLock::(lockSlow|lock)\( => f_lock
//@replace LightSpeed::FastLock::unlock\( => f_unlock
static uint64_t r_begin(bool held) {
	on = false; P = 0; R = new FastLockR; me = held ? HOLDS : OUT; uint64_t n = held ? vp_range(1, (uint64_t)1 << 60) : 0; r_env();
	if (held) { R->ownerThread = g_id; R->recursiveCount = n; } on = true; return n;
}
static void r_held(uint64_t n) { vp_assert(me == HOLDS && R->ownerThread == g_id, "owned by this thread"); vp_assert((uint64_t)R->recursiveCount == n, "counted"); }
//@harness c18_fastr native=no
VP_HARNESS(c18_fastr) {
	bool held = vp_bool(); uint64_t n = r_begin(held);
	switch (vp_choice(5)) {
	case 0: if (R->tryLock()) r_held(n + 1); else vp_assert(!held && me == OUT, "refused"); vp_cover("try"); break;
	case 1: R->lock(); r_held(n + 1); vp_cover("lock"); break;
	case 2: R->lockR(); r_held(n + 1); break;
	case 3: R->unlock(); vp_assert((me == HOLDS) == (n > 1), "released after as many unlocks as locks"); if (n > 1) r_held(n - 1); vp_cover("unlock"); break;
	case 4:
		if (held) { vp_assert(R->unlockSaveRecusion() == n, "the count is saved"); vp_assert(me == OUT, "released"); vp_cover("saved"); }
		else { uint64_t c = vp_range(1, 1000); bool r = R->lockRestoreRecursion(c, vp_bool()); if (r) { r_held(c); vp_cover("restored"); } else vp_assert(me == OUT, "refused"); }
		break;
	}
}
//@harness c18_fastr_owned native=no
VP_HARNESS(c18_fastr_owned) { uint64_t n = r_begin(true); vp_assert(!R->lockRestoreRecursion(5, vp_bool()), "an owned lock cannot be restored"); r_held(n); vp_cover("done"); }
