// C24: whole histories of one thread on the real MsgQueue (bounded; the proofs are in C24_msgq.cpp)
#include "vp.h"
#include <stdlib.h>
#include <new>
#define protected public
#define private public
#include "lightspeed/base/types.h"
#include "lightspeed/base/actions/msgQueue.cpp"
#undef private
#undef protected
using namespace LightSpeed;
//@function MsgQueue (post, priority post, pump, cancel, fetch and flush in sequence)
typedef MsgQueue::AbstractMsg Abs;
struct Queue: MsgQueue { Queue(): MsgQueue(*(IRuntimeAlloc *)(void *)vp_alloc(8)) {} virtual void notify() {} };
static int h_log[24], h_n, h_want[24], h_m;
struct HMsg: Abs { int id; virtual void run() throw() { h_log[h_n++] = id; } virtual void reject() throw() { h_log[h_n++] = id + 10; } virtual void done() throw() { h_log[h_n++] = id + 20; } };
static HMsg *H[4]; static int h_cur[8], h_c, h_new[8], h_w;
static void h_fetch() { for (int i = 0; i < h_w; i++) h_cur[h_c++] = h_new[i]; h_w = 0; }
static void h_take(int i, int what) { int id = h_cur[i]; for (int k = i + 1; k < h_c; k++) h_cur[k - 1] = h_cur[k]; h_c--; h_want[h_m++] = id + what; h_want[h_m++] = id + 20; }
static void h_step(Queue &q, int &posted) {
	switch (vp_choice(5)) {
	case 0: if (posted < 4) { h_new[h_w++] = posted; q.postMessage(H[posted++]); } break;
	case 1: if (posted < 4) { for (int k = h_c; k > 0; k--) h_cur[k] = h_cur[k - 1]; h_cur[0] = posted; h_c++; q.postPriorityMessage(H[posted++]); } break;
	case 2: if (h_c == 0) h_fetch(); if (h_c) h_take(0, 0); q.pumpMessage(); break;
	case 3: { int id = vp_choice(4); h_fetch(); for (int k = 0; k < h_c; k++) if (h_cur[k] == id) { h_take(k, 10); break; } q.wtCancelMessage(H[id]); break; }
	case 4: h_fetch(); q.prepareQueue(); break;
	}
}
static void h_history(int steps) {
	Queue *qp = new Queue; Queue &q = *qp; h_n = h_m = h_c = h_w = 0; int posted = 0; for (int i = 0; i < 4; i++) { H[i] = new HMsg; H[i]->id = i; }
	for (int i = 0; i < 2; i++) { h_new[h_w++] = posted; q.postMessage(H[posted++]); }
	for (int i = 0; i < steps; i++) h_step(q, posted);
	h_fetch(); bool flush = vp_bool(); vp_assert((int)q.length() == h_c, "the length is the number of messages that wait");
	if (flush) { while (h_c) h_take(0, 10); q.wtFlush(); } else { while (h_c) h_take(0, 0); while (q.pumpMessage()) { } }
	vp_assert(q.empty() && q.length() == 0, "empty"); vp_assert(h_n == h_m, "each message is processed once"); for (int i = 0; i < h_n && i < h_m; i++) vp_assert(h_log[i] == h_want[i], "in order"); vp_cover("done");
}
//@harness c24_history kind=bounded bound=histories_of_6_operations_with_4_messages
VP_HARNESS(c24_history) { h_history(4); }
//@harness c24_history_more kind=bounded tier=thorough max_paths=200000 cost=600 bound=histories_of_7_operations_with_4_messages
VP_HARNESS(c24_history_more) { h_history(5); }
