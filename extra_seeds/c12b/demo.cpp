#include <exception>
#include <stdio.h>
#include "lightspeed/base/types.h"
#include "lightspeed/base/memory/stdAlloc.h"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/exceptions/container.h"
#include "lightspeed/base/exceptions/throws.tcc"
using namespace LightSpeed;
#define CHECK(c) do { if (!(c)) { printf("failed: %s\n", #c); return 1; } } while (0)
static int live, fuse = -1; static int boom(int v) { if (fuse == 0) { fuse = -1; throw 1; } if (fuse > 0) fuse--; return v; }
struct X { int v; X():v(0){live++;} X(int v):v(v){live++;} X(const X&o):v(boom(o.v)){live++;} ~X(){live--;v=-1;} X &operator=(const X &o){v=o.v;return *this;} };
int main() {
	AutoArray<X> a; a.reserve(16);
	for (int i = 0; i < 6; i++) a.add(X(i + 10));
	a.insert(3, a[3], 2);
	CHECK(a.length() == 8);
	int e[] = {10, 11, 12, 13, 13, 13, 14, 15};
	for (int i = 0; i < 8; i++) CHECK(a[i].v == e[i]);
	return 0;
}
