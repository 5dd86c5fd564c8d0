// C11: balanced trees. One level of every recursive tree operation on an arbitrary
// node, over the contract of the call on the subtree (induction over the height).
#include "avlpool.h"
//@function AvlTreeNode::insert, insertBalance, removeBalance, balanceAfterRemove, takeRightMost, removeRootNode, remove (by value, by path), rotateSingle, rotateDouble, adjustBalance
//@assume heights stay below 2^30 (the path of an iterator holds 64 nodes)
// ---------------------------------------------------------------- insertion
//@recursive AvlTreeNode<unsigned long.*::insert<Cmp>\( => insert_contract
extern "C" N *insert_contract(N *t, const Cmp &c, N *nd, bool &done, N::Iterator *path) {
	vp_assert(!g_called && nd == g_new && !done && !path, "one call on one subtree");
	vp_assert(t == g_this->left || t == g_this->right, "a subtree of this node");
	if (g_this->left != g_this->right) vp_assert((t == g_this->left) == (nd->data < g_this->data), "the subtree the value belongs to");
	g_called = true; g_sub = t; g_after = Seq(); g_before = Seq(); flat(t, g_before);
	if (!t) { g_after.add(nd); return nd; }                    // the new node alone
	if (vp_bool()) { g_what = 0; return 0; }                   // already there: nothing changes
	int64_t h = height(t);
	if (vp_bool()) { done = true; N *r = fresh(); opaque[used - 1] = true; hh[used - 1] = h; g_after.add(r); return r; }   // not higher
	// higher by one: its root leans
	N *r = fresh(); int b = vp_choice(2) ? 1 : -1;
	r->balance = b; r->left = subtree(b > 0 ? h - 1 : h); r->right = subtree(b < 0 ? h - 1 : h);
	open(b > 0 ? r->right : r->left);
	flat(r, g_after);
	return r;
}
//@harness c11_insert lia=1500 max_paths=200000 native=no
VP_HARNESS(c11_insert) {
	Cmp c; used = 0; g_called = false; g_what = 1;
	g_new = fresh(); uint64_t x = g_new->data;
	int64_t h = anyheight(); vp_assume(h > 0);
	N *t = node(h, false, false); g_this = t; uint64_t k = t->data;
	Seq L, R, all; flat(t->left, L); flat(t->right, R); flat(t, all);
	bool done = false;
	N *r = t->insert(c, g_new, done);
	if (x == k) { vp_assert(!r && !g_called, "a value already there is not inserted"); vp_cover("equal"); }
	if (!r) {
		vp_assert(x == k || (g_called && g_what == 0), "refused only when the value is there");
		Seq now; flat(t, now); vp_assert(same(now, all), "and nothing changes"); vp_assert(height(t) == h, "and nothing changes");
		vp_cover("exists"); return;
	}
	vp_assert(g_called, "the new node is inserted");
	Seq want, now; bool left = x < k;
	if (left) { for (int i = 0; i < g_after.n; i++) want.add(g_after.v[i]); want.add(t); for (int i = 0; i < R.n; i++) want.add(R.v[i]); }
	else { for (int i = 0; i < L.n; i++) want.add(L.v[i]); want.add(t); for (int i = 0; i < g_after.n; i++) want.add(g_after.v[i]); }
	flat(r, now); vp_assert(same(now, want), "the order of the nodes is kept and the new one is in its place");
	int64_t nh = height(r);
	vp_assert(vp_ite64(done, nh == h, nh == h + 1), "higher by one unless done");
	vp_assert(vp_implies(!done, r->balance != 0), "a tree that has grown leans");
	vp_assert(t->data == k && g_new->data == x, "values stay");
	vp_cover(done ? "same height" : "higher");
}
//@harness c11_insert_empty
VP_HARNESS(c11_insert_empty) {
	Cmp c; used = 0; g_new = fresh(); g_this = 0; bool done = false;
	N *t = 0; N *r = t->insert(c, g_new, done);
	vp_assert(r == g_new && !done, "the new node alone"); vp_assert(height(r) == 1, "of height one");
}
// ---------------------------------------------------------------- removal
//@recursive AvlTreeNode<unsigned long.*::remove<Cmp>\( => remove_contract
extern "C" N *remove_contract(N *t, const Cmp &c, const N *del, bool &done, N *&removed) {
	vp_assert(!g_called && del == g_new && !done, "one call on one subtree");
	vp_assert(t == g_this->left || t == g_this->right, "a subtree of this node");
	if (g_this->left != g_this->right) vp_assert((t == g_this->left) == (del->data < g_this->data), "the subtree the value belongs to");
	g_called = true; g_sub = t; g_after = Seq();
	if (!t || vp_bool()) { removed = 0; done = true; flat(t, g_after); g_what = 0; return t; }    // not there
	g_what = 1;
	removed = fresh(); vp_assume(removed->data == del->data);
	return shrunk(t, done);
}
static void rem(bool left) {
	Cmp c; used = 0; g_called = false; g_what = 2;
	g_new = fresh(); uint64_t x = g_new->data;
	int64_t h = anyheight(); vp_assume(h > 0);
	N *t = node(h, false, false); g_this = t; uint64_t k = t->data;
	vp_assume(left ? x < k : k < x);
	opensib(left ? t->right : t->left, !left);
	Seq L, R, all; flat(t->left, L); flat(t->right, R); flat(t, all);
	bool done = false; N *out = (N *)pool;
	N *r = t->remove(c, g_new, done, out);
	vp_assert(g_called, "searched further");
	if (g_what == 0) {
		vp_assert(r == t && out == 0, "nothing is removed when the value is not there");
		Seq now; flat(r, now); vp_assert(same(now, all) && done, "and nothing changes"); vp_assert(height(r) == h, "and nothing changes");
		vp_cover("not there"); return;
	}
	vp_assert(out && out->data == x, "the node with the value");
	Seq want; around(want, L, t, R, left);
	checkremoved(r, h, done, want);
}
//@harness c11_remove_left lia=1500 max_paths=200000 native=no
VP_HARNESS(c11_remove_left) { rem(true); }
//@harness c11_remove_right lia=1500 max_paths=200000 native=no
VP_HARNESS(c11_remove_right) { rem(false); }
//@recursive AvlTreeNode<unsigned long.*::takeRightMost\( => take_contract
static N *g_most;
extern "C" N *take_contract(N *root, N *&rm, bool &done) {
	vp_assert(!g_called && root && !done, "one call on one subtree");
	g_called = true; g_sub = root;
	rm = g_most = fresh();
	return shrunk(root, done);
}
//@harness c11_take_rightmost lia=1500 max_paths=200000 native=no
VP_HARNESS(c11_take_rightmost) {
	used = 0; g_called = false;
	int64_t h = anyheight(); vp_assume(h > 0);
	N *t = node(h, false, false); opensib(t->left, true);
	Seq L; flat(t->left, L); N *right = t->right;
	bool done = false; N *rm = 0;
	N *r = N::takeRightMost(t, rm, done);
	if (!right) {
		vp_assert(rm == t && !g_called && !done, "this node is the last");
		vp_cover("this"); checkremoved(r, h, done, L); return;
	}
	vp_assert(g_called && g_sub == right && rm == g_most, "the last node of the right subtree");
	Seq want, none; around(want, L, t, none, false);
	checkremoved(r, h, done, want);
	vp_cover("deeper");
}
//@recursive AvlTreeNode<unsigned long.*::remove\(.*Iterator const => remove_path_contract
static uint64_t g_idx; static bool g_root;
extern "C" N *remove_path_contract(N *t, const N::Iterator &it, bool &done, uint64_t idx) {
	vp_assert(!g_called && !done, "one call on one subtree");
	g_called = true; g_sub = t;
	if (t == g_this) { g_root = true; g_idx = idx; return t; }
	vp_assert(idx == g_idx + 1, "the next step of the path");
	return shrunk(t, done);
}
static void rempath(bool left) {
	used = 0; g_called = false; g_what = 2;
	int64_t h = anyheight(); vp_assume(h > 0);
	N *t = node(h, false, false); g_this = t;
	N *next = left ? t->left : t->right; vp_assume(next != 0);
	opensib(left ? t->right : t->left, !left);
	Seq L, R; flat(t->left, L); flat(t->right, R);
	N::Iterator it; it.pathlen = 3; it.dir = 0; it.path[0] = fresh(); g_idx = 1; it.path[1] = next; it.path[2] = fresh();
	bool done = false;
	N *r = t->remove(it, done, 1);
	vp_assert(g_called && g_sub == next, "along the path");
	Seq want; around(want, L, t, R, left);
	checkremoved(r, h, done, want);
}
//@harness c11_remove_path_left lia=1500 max_paths=200000 native=no
VP_HARNESS(c11_remove_path_left) { rempath(true); }
//@harness c11_remove_path_right lia=1500 max_paths=200000 native=no
VP_HARNESS(c11_remove_path_right) { rempath(false); }

//@harness c11_remove_path_self native=no
VP_HARNESS(c11_remove_path_self) {
	used = 0; g_called = false; g_root = false; g_idx = vp_range(0, 60);
	int64_t h = anyheight(); vp_assume(h > 0);
	N *t = node(h, false, false); g_this = t; Seq all, now; flat(t, all);
	N::Iterator it; it.pathlen = 63; it.dir = 0; for (int i = 0; i < 63; i++) it.path[i] = 0;
	uint64_t at = vp_choice(4); it.path[at] = t; bool done = false;
	N *r = t->remove(it, done, at);
	vp_assert(g_called && g_root && g_idx == at + 1 && r == t, "the path starts at this node: the next step of the path decides");
}
