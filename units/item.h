// An element type that records every construction and destruction. The probe
// g_P is an arbitrary address: what holds for it holds for every element slot.
#ifndef ITEM_H_
#define ITEM_H_
#include <set>
struct Item;
static Item *g_P;            // the probed slot
static bool g_live;          // does it hold a constructed element
static uint64_t g_news;      // elements constructed minus destroyed, all addresses
static uint64_t g_born, g_thrown;   // all constructions so far; at the moment of the throw
static std::set<const void *> *g_set;   // native runs: every live element
static void item_born(Item *p) {
	if (vp_symbolic()) {
		vp_assert(!vp_and(p == g_P, g_live), "no element is constructed over a live one");
		g_live = vp_or(g_live, p == g_P);
	} else {
		if (!g_set) g_set = new std::set<const void *>;
		vp_assert(g_set->insert(p).second, "no element is constructed over a live one");
	}
	g_news++; g_born++;
}
static void item_gone(Item *p) {
	if (vp_symbolic()) {
		vp_assert(vp_implies(p == g_P, g_live), "only live elements are destroyed");
		g_live = vp_and(g_live, p != g_P);
	} else vp_assert(g_set && g_set->erase(p) == 1, "only live elements are destroyed");
	g_news--;
}
static void item_used(const Item *p) {
	if (vp_symbolic()) vp_assert(vp_implies(p == g_P, g_live), "only live elements are read");
	else vp_assert(g_set && g_set->count(p) == 1, "only live elements are read");
}
static bool g_undo;          // has a copy thrown
static bool g_maythrow;      // copying may throw once
struct Item {
	uint64_t v;
	Item() : v(0) { item_born(this); }
	explicit Item(uint64_t v) : v(v) { item_born(this); }
	Item(const Item &o) : v(o.v) { item_used(&o); if (g_maythrow && vp_bool()) { g_maythrow = false; g_thrown = g_born; g_undo = true; throw 1; } item_born(this); }
	Item &operator=(const Item &o) { item_used(&o); item_used(this); v = o.v; return *this; }
	~Item() { v = 0xdeaddeaddeaddeadull; item_gone(this); }
};
static bool item_live(const Item *p) {   // p is the probe in the verifier
	return vp_symbolic() ? vp_and(p == g_P, g_live) : g_set && g_set->count(p);
}
#endif
