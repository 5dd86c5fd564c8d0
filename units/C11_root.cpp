// C11: removing the root of a tree, over the contract of taking out the last node of
// the left subtree (which c11_take_rightmost discharges).
#include "avlpool.h"
//@function AvlTreeNode::removeRootNode, remove (by value, by path), balanceAfterRemove, removeBalance, rotateSingle, rotateDouble, adjustBalance
//@replace AvlTreeNode<unsigned long.*::takeRightMost\( => take_contract
static N *g_most;
extern "C" N *take_contract(N *root, N *&rm, bool &done) {
	vp_assert(!g_called && root && !done, "one call on one subtree");
	g_called = true; g_sub = root;
	rm = g_most = fresh();
	return shrunk(root, done);
}
// removing the root of a subtree: its place is taken by the last node on the left
static void remroot(int how) {
	used = 0; g_called = false; g_what = 2;
	int64_t h = anyheight(); vp_assume(h > 0);
	N *t = node(h, false, false); g_this = t; uint64_t k = t->data;
	if (t->left && t->right) opensib(t->right, false);
	Seq L, R; flat(t->left, L); flat(t->right, R); N *l = t->left;
	bool both = t->left && t->right;
	bool done = false; N *r, *out = t;
	if (how == 0) { Cmp c; N *del = fresh(); del->data = k; g_new = del; out = 0; r = t->remove(c, del, done, out); }
	else { N::Iterator it; it.pathlen = 1; it.dir = 0; it.path[0] = t; it.path[1] = 0; r = t->remove(it, done, 1); }
	vp_assert(out == t, "this node is removed"); vp_assert(t->left == 0 && t->right == 0 && t->balance == 0, "and no longer linked");
	opaque[id(t)] = true;
	Seq want;
	if (!both) { for (int i = 0; i < L.n; i++) want.add(L.v[i]); }
	else { vp_assert(g_called && g_sub == l, "the last node of the left subtree"); for (int i = 0; i < g_after.n; i++) want.add(g_after.v[i]); want.add(g_most); }
	for (int i = 0; i < R.n; i++) want.add(R.v[i]);
	checkremoved(r, h, done, want);
	vp_cover(both ? "both subtrees" : "one subtree");
}
//@harness c11_remove_this lia=1500 max_paths=200000 native=no
VP_HARNESS(c11_remove_this) { remroot(0); }
//@harness c11_remove_path_end lia=1500 max_paths=200000 native=no
VP_HARNESS(c11_remove_path_end) { remroot(1); }
