// An arbitrary AVL tree seen one level at a time.
#pragma once
#include "vp.h"
#define protected public
#define private public
#include <exception>
#include "lightspeed/base/types.h"
#include "lightspeed/base/containers/avltreenode.tcc"
#undef private
#undef protected
#include "lightspeed/base/exceptions/iterator.h"
using namespace LightSpeed;
typedef AvlTreeNode<uint64_t> N;
struct Cmp { bool operator()(const N *a, const N *b) const { return a->data < b->data; } };
// a pool of nodes; an opaque one stands for a whole subtree of height h
enum { MAX = 40 };
struct Slot { char mem[sizeof(N)]; };
static Slot pool[MAX]; static bool opaque[MAX]; static int64_t hh[MAX]; static int used;
static int id(const N *n) { for (int i = 0; i < used; i++) if ((N *)pool[i].mem == n) return i; return -1; }
static N *fresh() { if (used == MAX) vp_assert(false, "pool"); N *n = (N *)pool[used].mem; n->left = n->right = 0; n->balance = 0; n->dirty = false; n->data = vp_u64(); opaque[used] = false; used++; return n; }
// an arbitrary subtree of height h: nothing, or a node with arbitrary fields standing for all of it
static N *subtree(int64_t h) {
	if (vp_bool()) { vp_assume(h == 0); return 0; }
	vp_assume(h > 0);
	N *n = fresh(); opaque[used - 1] = true; hh[used - 1] = h; n->balance = vp_u8(); return n;
}
// unfold an opaque subtree: its root with arbitrary subtrees that keep the balance
static void open(N *n) {
	if (!n) return;
	int i = id(n); if (!opaque[i]) return;
	int64_t h = hh[i]; opaque[i] = false;
	int b = (int)vp_choice(3) - 1;
	n->balance = b; n->left = subtree(b > 0 ? h - 2 : h - 1); n->right = subtree(b < 0 ? h - 2 : h - 1);
}
// the nodes and opaque subtrees in order
struct Seq { const N *v[MAX]; int n; Seq():n(0) {} void add(const N *x) { v[n++] = x; } };
static void flat(const N *n, Seq &s) { if (!n) return; if (opaque[id(n)]) { s.add(n); return; } flat(n->left, s); s.add(n); flat(n->right, s); }
static bool same(const Seq &a, const Seq &b) { if (a.n != b.n) return false; for (int i = 0; i < a.n; i++) if (a.v[i] != b.v[i]) return false; return true; }
// height; every node met must be balanced as it says
static int64_t height(const N *n) {
	if (!n) return 0;
	int i = id(n); vp_assert(i >= 0, "a node of the tree");
	if (opaque[i]) return hh[i];
	int64_t l = height(n->left), r = height(n->right);
	vp_assert(vp_and(n->balance >= -1, n->balance <= 1), "balanced within one");
	vp_assert(r - l == n->balance, "the balance of a node is the difference of the heights of its subtrees");
	return (int64_t)vp_ite64(l > r, l, r) + 1;
}
static N *g_this, *g_new, *g_sub; static Seq g_before, g_after; static bool g_called; static int g_what; static uint64_t g_key;
static int64_t anyheight() { return (int64_t)vp_range(0, 1 << 30); }
static N *node(int64_t h, bool l, bool r) {
	N *n = fresh(); int i = used - 1; opaque[i] = true; hh[i] = h; open(n);
	if (l) open(n->left);
	if (r) open(n->right);
	return n;
}
// the contract of taking a node out of a subtree: the same height, or one less
static N *shrunk(N *t, bool &done) {
	int64_t h = height(t), n = h; 
	done = vp_bool();
	if (!done) n = h - 1;
	N *r = subtree(n); g_after = Seq(); flat(r, g_after);
	return r;
}
static void checkremoved(N *r, int64_t h, bool done, const Seq &want) {
	Seq now; flat(r, now); vp_assert(same(now, want), "the other nodes stay in order");
	int64_t nh = height(r);
	vp_assert(vp_ite64(done, nh == h, nh == h - 1), "lower by one unless done");
	vp_cover(done ? "same height" : "lower");
}
static void around(Seq &want, const Seq &L, N *t, const Seq &R, bool left) {
	if (left) { for (int i = 0; i < g_after.n; i++) want.add(g_after.v[i]); want.add(t); for (int i = 0; i < R.n; i++) want.add(R.v[i]); }
	else { for (int i = 0; i < L.n; i++) want.add(L.v[i]); want.add(t); for (int i = 0; i < g_after.n; i++) want.add(g_after.v[i]); }
}
// the sibling of the side that loses a node, open as far as rebalancing looks at it
static void opensib(N *s, bool innerright) { open(s); if (s && !opaque[id(s)]) open(innerright ? s->right : s->left); }
