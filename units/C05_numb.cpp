// C05: variable-length integers
#include "vp.h"
#include <exception>
#include "lightspeed/base/streams/compressNumb.cpp"
using namespace LightSpeed;
//@function CompressNumb::compress, decompress, numberLength, compressSigned, decompressSigned
//@harness uns
//@harness sgnd
//@harness two

static natural specLen(uint64_t v) {   // lengths documented in the header: 32, +8192, +2097152, ...
	uint64_t lim = 32, span = 32;
	for (natural n = 1; n < 8; n++) { if (v < lim) return n; span <<= 8; lim += span; }
	return 0;
}
VP_HARNESS(uns) {
	uint64_t v = vp_u64();
	byte *b = (byte *)vp_alloc(10);
	natural n = vp_concrete(CompressNumb::compress(v, b));
	vp_assert(n >= 1 && n <= 9, "length");
	vp_assert(specLen(v) == 0 || specLen(v) == n, "documented length");
	vp_assert(CompressNumb::numberLength(b[0]) == n, "first byte tells the length");
	byte *c = (byte *)vp_alloc(n);         // exactly n bytes: the reader may not look further
	for (natural i = 0; i < n; i++) c[i] = b[i];
	vp_assert(CompressNumb::decompress(c) == v, "decompress restores the number");
	vp_cover(n == 1 ? "one byte" : n == 9 ? "nine bytes" : "middle");
}
VP_HARNESS(sgnd) {
	uint64_t u = vp_u64(); Bin::integer64 v = (Bin::integer64)u;
	byte *b = (byte *)vp_alloc(10);
	natural n = vp_concrete(CompressNumb::compressSigned(v, b));
	vp_assert(CompressNumb::numberLength(b[0]) == n, "first byte tells the length");
	vp_assert(CompressNumb::decompressSigned(b) == v, "decompress restores the signed number");
	vp_cover(v < 0 ? "negative" : "positive");
}
VP_HARNESS(two) {
	uint64_t v = vp_u64(), w = vp_u64();
	byte *b = (byte *)vp_alloc(20);
	natural n = vp_concrete(CompressNumb::compress(v, b));
	natural m = vp_concrete(CompressNumb::compress(w, b + n));
	const byte *p = b;
	vp_assert(CompressNumb::decompress(p) == v, "first number");
	p += CompressNumb::numberLength(*p);
	vp_assert(CompressNumb::decompress(p) == w, "second number");
	p += CompressNumb::numberLength(*p);
	vp_assert(p == b + n + m, "reader consumed what the writer produced");
}
