// C18: FastLock, thread-modular. The verified thread runs the real code; before each access to shared memory the other
// threads (any number) act as the protocol allows (rely), and every step of the thread is judged (guarantee).
#include "vp.h"
#include <stdlib.h>
#include <new>
#define protected public
#define private public
#include "lightspeed/base/types.h"
#include "lightspeed/base/memory/refCntPtr.h"
#include "lightspeed/base/memory/refCntPtr.cpp"
#include "lightspeed/mt/threadSleeper.h"
#include "lightspeed/base/sync/synchronize.h"
#include "lightspeed/mt/fastlock.h"
#undef private
#undef protected
using namespace LightSpeed;
//@function FastLock (lock, tryLock, unlock, lockSlow, addToQueue, Async), FastLockR (lock, tryLock, unlock, unlockSaveRecusion, lockRestoreRecursion)
//@assume atomic accesses are sequentially consistent; the other threads use the lock only through FastLock, whose steps are the ones judged here; a lock is released by the thread that holds it
typedef FastLock::Slot Slot;
struct Sleeper: IThreadSleeper { virtual void wakeUp(natural) throw(); };
enum { OUT, WAITS, HOLDS };               // this thread
enum { FREE, OTHER, MINE };               // who owns the lock
static FastLock *L; static int me, holder; static Slot *M; 
static Slot *W; static uint64_t pos[2]; static uint64_t g_k;     // waiting slots of other threads (the third above the others), pos: how many slots to the holder's
static char tokmem[16] __attribute__((aligned(16)));                                           // the slot of a holder, it may be gone already
static Slot *q0, *o0; static bool passed, on; static int woken; static Sleeper *g_ws, *g_ms; static bool pending, walk;
#define TOK ((Slot *)tokmem)
void Sleeper::wakeUp(natural) throw() { vp_assert(passed && this == g_ws, "the thread which got the lock is woken"); vp_assert(counter > 0, "its sleeping object lives"); woken++; }
static Slot *top(Slot *bottom, uint64_t least) {
	if (least == 0 && vp_bool()) return bottom;
	pos[0] = vp_range(least ? least : 1, (uint64_t)1 << 40); g_k = 0; return W;
}
static void env() {
	if (me == OUT) {
		if (vp_bool()) { holder = FREE; L->queue = 0; L->owner = 0; }
		else { holder = OTHER; L->queue = top(TOK, 0); L->owner = vp_bool() ? TOK : 0; }
	} else if (me == WAITS) {
		L->queue = top(M, L->queue == M ? 0 : 1);
		switch (vp_choice(4)) { case 0: L->owner = 0; break; case 1: L->owner = TOK; break; case 2: L->owner = W + 1; break;
		case 3: L->owner = M; me = HOLDS; holder = MINE; pending = false; break; }
	} else if (!passed) { if (L->queue == M) L->queue = top(M, 0); else if (vp_bool()) { L->queue = W + 2; if (!walk) g_k = 2; } }      // more slots above
	q0 = L->queue; o0 = L->owner;
}
extern "C" void fast_step(void *a, int kind) {
	if (!on) return;
	if (a != (void *)&L->queue && a != (void *)&L->owner) {
		if (a >= (void *)tokmem && a < (void *)(tokmem + 16)) { vp_assert(false, "no access to a slot that may be gone"); return; }
		for (int k = 0; k < 3; k++) if (a == (void *)&W[k].next || a == (void *)&W[k].notify) {
			vp_concrete((char *)a - (char *)W); walk = true;
			vp_assert(kind < 2, "a slot of another thread is not changed"); vp_assert(me == HOLDS && !passed, "only the holder looks at waiting slots");
			if (kind == 0 && a == (void *)&W[k].next) {
				if (k == 2) g_k = 0;
				else if (pos[k] == 1) { W[k].next = M; g_k = k; }
				else { W[k].next = &W[1 - k]; pos[1 - k] = pos[k] - 1; g_k = 1 - k; }
			}
		}
		return;
	}
	if ((kind & 1) == 0) { env(); return; }
	if (kind == 1) return;
	Slot *q = L->queue, *o = L->owner;
	if (a == (void *)&L->queue) {
		vp_assert(kind == 5, "the queue changes by an atomic operation only");
		if (q != q0) {
			if (q0 == 0) { vp_assert(holder == FREE && me == OUT, "the lock is taken only when it is free"); M = q; me = HOLDS; holder = MINE; pending = true; }
			else if (q == 0) { vp_assert(me == HOLDS && q0 == M && o0 == 0, "the lock is freed by its holder, nobody waits, no owner is left behind"); me = OUT; holder = FREE; }
			else { vp_assert(me == OUT, "one slot per thread"); vp_assert(q->next == q0, "the new slot is linked to the slots that wait"); M = q; me = WAITS; g_ws = 0; }
		}
	} else {
		vp_assert(me == HOLDS && !passed, "only the holder names the owner");
		if (o == M) pending = false;
		else if (o != 0) {
			vp_assert(o0 == 0, "announced");
			vp_assert(o == W || o == W + 1, "the ownership goes to a waiting thread");
			uint64_t p = o == W ? pos[0] : pos[1]; vp_assert(p == 1, "to the one that waits longest");
			passed = true; holder = OTHER; o->notify = RefCntPtr<IThreadSleeper>(nil);          // its slot and its sleeping object can go away now
		}
	}
}
namespace LightSpeed {
RefCntPtr<IThreadSleeper> getCurThreadSleepingObj() { return RefCntPtr<IThreadSleeper>(g_ms); }
void threadHalt() throw() { }
atomicValue getCurThreadId();
}
//@preempt LightSpeed::FastLock::(lock|unlock|tryLock|lockSlow|addToQueue|Async::.*)\( => fast_step
//@preempt (LightSpeed::FastLock::Slot\* )?LightSpeed::(lockCompareExchangePtr|readAcquirePtr)<LightSpeed::FastLock::Slot> => fast_step
static void begin() {
	on = false; L = new FastLock; W = (Slot *)vp_alloc(3 * sizeof(Slot)); new(W) Slot(0); new(W + 1) Slot(0); new(W + 2) Slot(0); W[2].next = W; M = 0; me = OUT; holder = OTHER; passed = false; woken = 0; walk = false; g_k = 0; pos[0] = pos[1] = 1; pending = false;
	g_ws = new Sleeper; W[0].notify = g_ws; W[1].notify = g_ws; W[2].notify = g_ws; g_ms = new Sleeper; g_ms->addRef(); on = true;
}
static void holding() { vp_assert(me == HOLDS && holder == MINE, "this thread alone holds the lock"); vp_assert(L->owner == M && !pending, "and its slot is the owner"); }
//@loop LightSpeed::FastLock::addToQueue => q_inv
extern "C" void q_inv(uint64_t) { vp_inv(me == OUT, "not in the queue yet"); vp_candp(q0); vp_candp(M); vp_candp(L->queue); vp_candp(L->owner); }
//@loop LightSpeed::FastLock::lockSlow => w_inv
//@loop LightSpeed::FastLock::Async::~Async => w_inv
extern "C" void w_inv(uint64_t) { vp_inv(me == WAITS || me == HOLDS, "in the queue"); vp_inv((me == HOLDS) == (L->owner == M), "owner"); vp_inv((me == HOLDS) == (holder == MINE), "holder"); vp_candp(M); vp_inv(me != HOLDS || !pending, "named"); }
//@loop LightSpeed::FastLock::unlock => u_inv
extern "C" void u_inv(uint64_t) { vp_inv(me == HOLDS && !passed, "still the holder"); vp_inv(g_k < 3, "slot"); vp_candp(&W[g_k]); vp_inv(pos[0] >= 1 && pos[1] >= 1, "place"); }
//@harness c18_fast_try native=no
VP_HARNESS(c18_fast_try) {
	begin(); bool r = L->tryLock();
	if (r) { holding(); vp_cover("taken"); } else { vp_assert(me == OUT, "not in the queue"); vp_cover("refused"); }
}
//@harness c18_fast_lock kind=inductive native=no
VP_HARNESS(c18_fast_lock) { begin(); L->lock(); holding(); vp_cover("taken"); }
//@harness c18_fast_async kind=inductive native=no
VP_HARNESS(c18_fast_async) { begin(); { FastLock::Async a(*L); } holding(); vp_cover("taken"); }
//@harness c18_fast_unlock kind=inductive native=no
VP_HARNESS(c18_fast_unlock) {
	begin(); M = TOK; me = HOLDS; holder = MINE; L->owner = M; L->queue = M;
	L->unlock();
	if (passed) { vp_assert(woken == 1, "the new owner is woken once"); vp_cover("passed"); }
	else { vp_assert(me == OUT && L->queue == 0 && L->owner == 0, "free"); vp_assert(woken == 0, "nobody to wake"); vp_cover("freed"); }
}
