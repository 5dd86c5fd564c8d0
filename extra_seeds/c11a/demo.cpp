
#include <exception>
#include <stdio.h>
#include <stdlib.h>
#include <map>
#include "lightspeed/base/types.h"
#include "lightspeed/base/containers/map.tcc"
#include "lightspeed/base/exceptions/iterator.h"
using namespace LightSpeed;
typedef Map<int,int> M; typedef std::map<int,int> S;
#define CHECK(c) do { if (!(c)) { printf("failed: %s step %d seed %d\n", #c, step, seed); exit(1); } } while (0)
int main() {
	for (int seed = 1; seed < 200; seed++) {
		srand(seed); M m; S s; int range = 4 + seed * 3;
		for (int step = 0; step < 400; step++) {
			int k = rand() % range, v = rand();
			switch (rand() % 6) {
			case 0: case 1: case 2: { bool ex; m.insert(k, v, &ex); CHECK(ex == (s.count(k) != 0)); s.insert(std::make_pair(k, v)); break; }
			case 3: CHECK(m.erase(k) == (s.erase(k) != 0)); break;
			case 4: case 5: { bool b = rand() % 2; bool f; M::Iterator it = m.seek(k, &f, b ? Direction::backward : Direction::forward); CHECK(f == (s.count(k) != 0)); if (f) { m.erase(it); S::iterator j = s.find(k); S::iterator n = j; ++n; 
				if (b) { if (j == s.begin()) CHECK(!it.hasItems()); else { S::iterator p = j; --p; CHECK(it.hasItems() && it.getNext().key == p->first); } }
				else { if (n == s.end()) CHECK(!it.hasItems()); else CHECK(it.hasItems() && it.getNext().key == n->first); }
				s.erase(j); } break; }
			}
			CHECK(m.size() == s.size());
			unsigned depth = 0, lim = 1; size_t nodes = 1, prev = 0; // fewest nodes of a balanced tree of height lim
			while (nodes <= s.size()) { size_t t = nodes + prev + 1; prev = nodes; nodes = t; lim++; }
			M::Iterator it = m.getFwIter(); for (S::iterator j = s.begin(); j != s.end(); ++j) { CHECK(it.hasItems()); if (it.getMaxDepth() > depth) depth = it.getMaxDepth(); const M::KeyValue &kv = it.getNext(); CHECK(kv.key == j->first && kv.value == j->second); } CHECK(!it.hasItems());
			CHECK(s.empty() || depth < lim); it = m.getBkIter(); for (S::reverse_iterator j = s.rbegin(); j != s.rend(); ++j) { CHECK(it.hasItems()); CHECK(it.getNext().key == j->first); } CHECK(!it.hasItems());
		}
	}
	return 0;
}
