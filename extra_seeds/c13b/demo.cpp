#include <exception>
#include <stdio.h>
#include "lightspeed/base/types.h"
#include "lightspeed/base/memory/stdAlloc.h"
#include "lightspeed/base/containers/deque.tcc"
#include "lightspeed/base/exceptions/container.h"
#include "lightspeed/base/exceptions/throws.tcc"
using namespace LightSpeed;
#define CHECK(c) do { if (!(c)) { printf("failed: %s\n", #c); return 1; } } while (0)
static int live;
struct X { int v; X(int v):v(v){live++;} X(const X&o):v(o.v){live++;} ~X(){live--;} };
int main() {
	Deque<X> d; d.reserve(4);
	for (int i = 0; i < 4; i++) d.pushFront(X(i));
	d.popBack(); d.popBack(); d.pushFront(X(4));
	for (int i = 0; i < 3; i++) CHECK(&d.mutableAt(i) == &d.at(i));
	return 0;
}
