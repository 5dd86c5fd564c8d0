// C24: MsgQueue, thread-modular: every atomic access of the calling thread may be preceded by any steps of the other threads (they push messages; only the worker removes them); message lists of any length by ghost cells made when the code reaches them
#include "vp.h"
#include <stdlib.h>
#include <new>
#define protected public
#define private public
#include "lightspeed/base/types.h"
#include "lightspeed/base/actions/msgQueue.cpp"
#undef private
#undef protected
using namespace LightSpeed;
//@function MsgQueue::postMessage, postPriorityMessage, prepareQueue, appendQueue, getNextMsg, pumpMessage, wtFlush, wtCancelMessage, AbstractMsg::isolate
//@assume atomic accesses are sequentially consistent; one worker thread; other threads use the queue only through postMessage and postPriorityMessage, whose steps are the ones judged here; a message is posted again only after it is done
typedef MsgQueue::AbstractMsg Abs;
static bool mockPrepare; static int prepared; static MsgQueue::AbstractMsg *fetched; static int queued, runs, rejects, dones, notified; static Abs *ran;
struct Msg: Abs {
	virtual void queued(MsgQueue &) { ::queued++; }
	virtual void run() throw () { vp_assert(dones == 0, "it still lives"); runs++; ran = this; }
	virtual void reject() throw() { rejects++; ran = this; }
	virtual void done() throw() { vp_assert(ran == this || ran == 0, "the one that was run or rejected"); dones++; }
};
struct Queue: MsgQueue {
	Queue(): MsgQueue(*(IRuntimeAlloc *)(void *)vp_alloc(8)) {}
	virtual void notify() { notified++; }
	virtual void prepareQueue() { if (mockPrepare) { prepared++; if (curQueue == 0 && vp_bool()) curQueue = fetched; } else MsgQueue::prepareQueue(); }
};
enum { POST, POSTED, GET, GOT, PREP, REV, DONE, APP, CANCEL, CUT };
static Queue *Q; static Msg *M, *W, *N; static bool on, prio; static int st; static uint64_t len0; static int lenmoves; static Abs *q0, *g_got, *g_new;
// a list of any length: pk is the cell the code looks at, the gi-th from the end (0: none), rk the one before it
static uint64_t pk, rk, gi, gn, gt; static Abs *rv, *g_rest; static uint64_t mi; static bool made, last; static uint64_t nxt;
static Abs *cell(uint64_t k, bool none) { return (Abs *)vp_ite64(none, 0, (uint64_t)(Abs *)&W[k]); }
static Abs *list(uint64_t n) { gn = gi = n; pk ^= 1; rk = 2; made = false; rv = 0; return cell(pk, n == 0); }
static void env(Abs *volatile *l) {                            // steps of the other threads
	if (l == &Q->newMessages) {
		if (st == POST) *l = vp_bool() ? (Abs *)N : vp_bool() ? (Abs *)0 : (Abs *)(W + 1);
		else if (st == PREP) { if (vp_bool()) *l = list(vp_range(1, (uint64_t)1 << 40)); }
		else if (vp_bool()) *l = N;
	} else {
		if (st == POST) *l = vp_bool() ? (Abs *)N : vp_bool() ? (Abs *)0 : (Abs *)(W + 1);
		else if (st == GET) { if (*l && vp_bool()) { gt ^= 1; W[gt].next.ptr = N; *l = W + gt; } }
		else if (st == CANCEL && *l == M && vp_bool()) { gn++; gi = gn; pk = 0; made = false; *l = W; }
	}
}
extern "C" void step(void *a, int kind) {
	if (!on) return;
	if (a == (void *)&Q->queueLen) {
		if ((kind & 1) == 0) { len0 = vp_u64(); Q->queueLen = len0; return; }
		if (kind == 1) return;
		vp_assert(kind == 5, "the length changes by an atomic operation only");
		vp_assert(st == POSTED || st == GOT || st == CUT || (st == CANCEL && rejects == 1), "after the list has changed");
		vp_assert((uint64_t)Q->queueLen == (st == POSTED ? len0 + 1 : len0 - 1), "the length moves by one"); lenmoves++; return;
	}
	if (a == (void *)&Q->newMessages || a == (void *)&Q->curQueue) {
		Abs *volatile *l = (Abs *volatile *)a; bool cur = a == (void *)&Q->curQueue;
		if ((kind & 1) == 0) { env(l); q0 = *l; return; }
		if (kind == 1) return;
		vp_assert(kind == 5, "the lists change by atomic operations only");
		Abs *v = *l; if (v == q0) return;
		switch (st) {
		case POST: vp_assert(cur == prio, "posted to the right list"); vp_assert(v == M, "its own message"); vp_assert(M->next.ptr == q0, "the messages posted before follow it");
			vp_assert(::queued == 1, "told about before it is visible"); st = POSTED; break;
		case GET: vp_assert(cur && v == q0->next.ptr, "the first message is removed, the others stay"); g_got = q0; st = GOT; break;
		case PREP: vp_assert(!cur && v == 0, "all new messages are taken"); vp_assert(q0 == cell(pk, gn == 0), "as they are now"); st = REV; break;
		case REV: vp_assert(cur && q0 == 0, "only an empty queue is replaced"); vp_assert(gi == 0, "every message was moved"); vp_assert(v == cell(rk, gn == 0), "oldest first"); st = DONE; break;
		case APP: vp_assert(cur && q0 == 0, "only an empty queue is replaced"); vp_assert(v == g_new, "by what is new"); st = DONE; break;
		case CANCEL: vp_assert(cur && q0 == M && v == M->next.ptr, "only the message that is cancelled is removed"); st = CUT; break;
		default: vp_assert(false, "the list is changed once");
		}
		return;
	}
	if (M && a == (void *)&M->next.ptr) { vp_assert(st != POSTED, "a posted message belongs to the worker"); return; }
	if (st != REV && st != APP && st != CANCEL) return;
	for (int k = 0; k < 3; k++) {
		if (a != (void *)&W[k].next.ptr) continue;
		vp_concrete((char *)a - (char *)W);
		if ((st == APP || st == CANCEL) && made && !last && (uint64_t)k == nxt) { pk = nxt; gi--; made = false; }
		if ((uint64_t)k != pk) {
			if (kind == 3) { vp_assert(st == REV && (uint64_t)k == rk && gi < gn, "a message of the list"); vp_assert(W[k].next.ptr == rv, "linked once"); }
		} else if (kind == 0 && !made) {                             // the rest of the list is made when the code reaches it
			vp_assert(gi != 0, "the list is followed"); made = true; last = gi == 1;
			nxt = st == APP || st == CANCEL ? 1 - pk : gi == gn ? (k == 2 ? 0 : k + 1) : 3 - pk - rk;
			if (st == CANCEL && mi != 0 && gi == mi + 1) { last = true; W[k].next.ptr = M; } else
			W[k].next.ptr = last ? (Abs *)0 : (Abs *)&W[nxt];
		} else if (kind == 3) {
			Abs *v = W[k].next.ptr;
			if (st == CANCEL) { vp_assert(made && mi != 0 && gi == mi + 1, "only the link to the message that is cancelled changes"); vp_assert(v == 0 || v == g_rest, "the rest stays"); continue; }
			if (st == APP) { if (v == 0) continue; vp_assert(made && last, "after the last message"); vp_assert(v == g_new, "what is new"); st = DONE; continue; }
			if (v == cell(rk, gi == gn)) { vp_assert(made, "the rest is not lost"); gi--; rk = k; rv = v; pk = nxt; made = false; }
			else vp_assert(v == 0 && made, "isolated, then linked to the one that came after it");
		}
	}
}
//@preempt LightSpeed::MsgQueue:: => step
//@preempt LightSpeed::(Alloc)?Pointer<LightSpeed::MsgQueue::AbstractMsg => step
//@preempt LightSpeed::lock(Inc|Dec)\( => step
static void begin(int z) {
	on = false; N = new Msg; Q = new Queue; W = (Msg *)vp_alloc(3 * sizeof(Msg)); gt = 0; for (int i = 0; i < 3; i++) { new(W + i) Msg; W[i].next.ptr = N; }
	M = 0; made = last = false; nxt = 0; rv = 0; st = z; queued = runs = rejects = dones = notified = lenmoves = 0; ran = 0; q0 = g_got = g_new = 0; pk = gi = gn = 0; rk = 1; prepared = 0;
}
//@loop LightSpeed::MsgQueue::post(Priority)?Message => post_inv
extern "C" void post_inv(uint64_t) { vp_inv(vp_implies(st != POSTED, st == POST), "state"); vp_inv(vp_and(queued == 1, vp_and(lenmoves == 0, notified == 0)), "told once"); vp_inv(vp_implies(st == POST, M->next.ptr != q0 || true), "link"); vp_candp(M->next.ptr); vp_candp(N); vp_candp(W + 1); }
//@harness c24_post kind=inductive native=no
VP_HARNESS(c24_post) {
	begin(POST); M = new Msg; prio = vp_bool(); on = true;
	if (prio) Q->postPriorityMessage(M); else Q->postMessage(M);
	vp_assert(st == POSTED, "posted"); vp_assert(queued == 1 && lenmoves == 1 && notified == 1, "told, counted and notified once"); vp_assert(runs == 0 && rejects == 0 && dones == 0, "not processed by the poster"); vp_cover("posted");
}
//@loop LightSpeed::MsgQueue::getNextMsg => get_inv
extern "C" void get_inv(uint64_t) { vp_inv(vp_and(st == GET, lenmoves == 0), "nothing taken yet"); vp_inv(gt < 2, "top"); vp_inv(vp_or(W[0].next.ptr == 0, W[0].next.ptr == N), "rest"); vp_candp(&W[gt]); vp_candp(N); }
//@harness c24_get kind=inductive native=no
VP_HARNESS(c24_get) {
	begin(GET); mockPrepare = true; fetched = W; bool had = vp_bool(); W[0].next.ptr = vp_bool() ? (Abs *)N : 0; Q->curQueue = had ? W : 0;
	on = true; Abs *m = Q->getNextMsg(); on = false;
	if (m) { vp_assert(st == GOT && m == g_got, "the message that was removed"); vp_assert(m->next.ptr == 0, "it is alone"); vp_assert(lenmoves == 1, "counted once"); vp_cover("got"); }
	else { vp_assert(st == GET && lenmoves == 0 && !had, "only an empty queue gives none"); vp_assert(prepared == 1, "after the new messages were asked for"); vp_cover("empty"); }
	vp_assert(runs == 0 && rejects == 0 && dones == 0, "not processed");
}
//@loop LightSpeed::MsgQueue::prepareQueue #0 => take_inv
extern "C" void take_inv(uint64_t) { vp_inv(st == PREP, "not taken"); vp_inv(pk < 2, "list"); vp_inv(rk == 2, "list"); vp_inv(gi == gn, "list"); vp_inv(!made, "list"); vp_candp(cell(pk, gn == 0)); }
//@loop LightSpeed::MsgQueue::prepareQueue #1 => rev_inv
extern "C" void rev_inv(uint64_t) {
	vp_inv(vp_or(st == REV, vp_and(st == PREP, gn == 0)), "taken"); vp_inv(vp_and(pk < 3, rk < 3), "cells"); vp_inv(gi <= gn, "moved"); vp_inv(vp_implies(gi != 0, !made), "next"); vp_inv(vp_implies(vp_and(gi != 0, gi < gn), pk != rk), "apart");
	vp_candp(cell(pk, gi == 0)); vp_candp(cell(rk, gi == gn));
}
//@harness c24_prepare kind=inductive native=no
VP_HARNESS(c24_prepare) {
	begin(PREP); mockPrepare = false; Q->curQueue = 0; Q->newMessages = list(vp_bool() ? vp_range(1, (uint64_t)1 << 40) : 0);
	on = true; Q->prepareQueue(); on = false;
	vp_assert(gi == 0, "all messages were moved"); if (st == PREP) { vp_assert(gn == 0 && Q->curQueue == 0, "nothing to move"); vp_cover("nothing"); }
	else { vp_assert(st == DONE, "queued"); vp_cover("moved"); }
	vp_assert(runs == 0 && rejects == 0 && dones == 0 && lenmoves == 0, "not processed");
}
//@loop LightSpeed::MsgQueue::appendQueue => app_inv
extern "C" void app_inv(uint64_t) { vp_inv(st == APP, "not appended"); vp_inv(vp_and(pk < 2, nxt < 2), "cells"); vp_inv(vp_and(gi >= 1, gi <= gn), "followed"); vp_inv(vp_implies(made, vp_and(nxt != pk, vp_and(gi >= 2, !last))), "reached"); vp_candp(&W[vp_ite64(made, nxt, pk)]); }
//@harness c24_append kind=inductive native=no
VP_HARNESS(c24_append) {
	begin(APP); Q->curQueue = list(vp_bool() ? vp_range(1, (uint64_t)1 << 40) : 0); g_new = vp_bool() ? N : 0;
	on = true; Q->appendQueue(g_new); on = false;
	if (g_new) vp_assert(st == DONE, "appended"); else vp_assert(st == APP, "nothing to append"); vp_cover("done");
	vp_assert(runs == 0 && rejects == 0 && dones == 0 && lenmoves == 0, "not processed");
}
struct Serve: Queue { int left; virtual Abs *getNextMsg() { if (left == 0) return 0; left--; ran = 0; runs = rejects = dones = 0; g_got = M; return M; } };
//@harness c24_pump native=no
VP_HARNESS(c24_pump) {
	begin(DONE); Serve *q = new Serve; q->left = vp_bool(); bool had = q->left; M = new Msg; Q = q; bool r = q->pumpMessage();
	vp_assert(r == had, "reports what it did"); vp_assert(runs == had && rejects == 0 && dones == had, "the message is run once and then done"); vp_assert(q->left == 0, "one message at most"); vp_assert(q->curMessage == 0, "no message is processed now"); vp_cover("pumped");
}
//@loop LightSpeed::MsgQueue::wtCancelMessage #0 => can0_inv
extern "C" void can0_inv(uint64_t) { vp_inv(st == CANCEL, "not cut"); vp_inv(vp_or(vp_and(gn == mi, mi != 0), vp_and(!made, pk == 0)), "list"); vp_inv(gi == gn, "list"); vp_inv(gn >= mi, "list"); vp_inv(gn <= (uint64_t)1 << 41, "list"); vp_candp((void *)vp_ite64(gn == 0, 0, vp_ite64(gn == mi, (uint64_t)(Abs *)M, (uint64_t)(Abs *)W))); }
//@loop LightSpeed::MsgQueue::wtCancelMessage #1 => can1_inv
extern "C" void can1_inv(uint64_t) {
	vp_inv(st == CANCEL, "not cut"); vp_inv(vp_and(pk < 2, nxt < 2), "cells"); vp_inv(vp_and(gi >= 1, gi <= gn), "followed"); vp_inv(vp_and(made, nxt != pk), "reached"); vp_inv(gi > mi, "not passed"); vp_inv(last == vp_or(gi == 1, vp_and(mi != 0, gi == mi + 1)), "last");
	vp_inv(vp_and(rejects == 0, vp_and(dones == 0, lenmoves == 0)), "not yet"); vp_candp(&W[pk]); vp_candp((void *)vp_ite64(vp_and(mi != 0, gi == mi + 1), (uint64_t)(Abs *)M, vp_ite64(gi == 1, 0, (uint64_t)(Abs *)&W[nxt])));
}
//@harness c24_cancel kind=inductive native=no
VP_HARNESS(c24_cancel) {
	begin(CANCEL); mockPrepare = true; fetched = 0; M = new Msg; ran = M; uint64_t n = vp_range(0, (uint64_t)1 << 40); mi = vp_bool() ? vp_range(0, (uint64_t)1 << 40) : 0; vp_assume(mi <= n);
	gn = gi = n; pk = 0; made = false; g_rest = mi > 1 ? N : 0; M->next.ptr = g_rest; Q->curQueue = n == 0 ? 0 : mi == n ? (Abs *)M : (Abs *)W; rejects = dones = 0;
	on = true; Q->wtCancelMessage(M); on = false;
	vp_assert(prepared == 1, "the new messages are searched too");
	if (mi == 0) { vp_assert(rejects == 0 && dones == 0 && lenmoves == 0 && st == CANCEL, "a message that is not queued is left alone"); vp_cover("absent"); }
	else {
		vp_assert(rejects == 1 && dones == 1 && lenmoves == 1 && runs == 0, "rejected once, not run"); vp_assert(M->next.ptr == 0, "it is alone");
		if (st == CUT) { vp_assert(Q->curQueue == g_rest, "the rest stays"); vp_cover("first"); }
		else { vp_assert(gi == mi + 1 && W[pk].next.ptr == g_rest, "the rest follows the messages before it"); vp_cover("inside"); }
	}
}
struct FMsg: Abs { int rj, dn; virtual void run() throw() { vp_assert(false, "not run"); } virtual void reject() throw() { vp_assert(rj == 0 && dn == 0, "rejected once, while it lives"); rj++; } virtual void done() throw() { vp_assert(rj == 1 && dn == 0, "done once, after it was rejected"); dn++; } };
static FMsg *F; static uint64_t fk; static int served; static bool f_end;
struct Drain: Queue { virtual Abs *getNextMsg() { f_end = vp_bool(); if (f_end) return 0; fk ^= 1; if (served == 2) vp_assert(F[fk].dn == 1, "each message is released"); else served++; F[fk].rj = F[fk].dn = 0; return &F[fk]; } };
//@loop LightSpeed::MsgQueue::wtFlush => flush_inv
extern "C" void flush_inv(uint64_t) {
	vp_inv(fk < 2, "cell"); vp_inv((uint32_t)served <= 2, "served"); vp_inv(vp_implies(!f_end, vp_and(served >= 1, vp_and(F[fk].rj == 0, F[fk].dn == 0))), "new"); vp_inv(vp_implies(served == 2, F[fk ^ 1].dn == 1), "released");
	vp_inv(vp_implies(vp_and(f_end, served >= 1), vp_and(F[fk].dn == 1, F[fk].rj == 1)), "released"); vp_candp((void *)vp_ite64(f_end, 0, (uint64_t)(Abs *)&F[fk]));
}
//@harness c24_flush kind=inductive native=no
VP_HARNESS(c24_flush) {
	begin(DONE); Drain *q = new Drain; Q = q; F = (FMsg *)vp_alloc(2 * sizeof(FMsg)); for (int i = 0; i < 2; i++) new(F + i) FMsg; F[0].rj = F[0].dn = F[1].rj = F[1].dn = 0; fk = 0; served = 0; f_end = false; mockPrepare = true; fetched = 0;
	q->wtFlush(); vp_assert(f_end, "until no message is left"); vp_assert(prepared >= 1, "new messages too"); if (served >= 1) vp_assert(F[fk].rj == 1 && F[fk].dn == 1, "the last one is released"); if (served == 2) vp_assert(F[fk ^ 1].dn == 1, "all are released"); vp_cover("done");
}
