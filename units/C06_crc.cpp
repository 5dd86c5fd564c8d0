// C06: CRC-32 against its bitwise definition (reflected polynomial EDB88320)
#include "vp.h"
#include "lightspeed/utils/crc32.h"
#include "lightspeed/utils/crc32.cpp"
using namespace LightSpeed;
//@function Crc32::write, Crc32::blockWrite, Crc32::reset, Crc32::getCrc32
static uint32_t spec(uint32_t c, uint8_t b) {
	c ^= b;
	for (int i = 0; i < 8; i++) c = (c >> 1) ^ (0xEDB88320u & (0u - (c & 1)));
	return c;
}
//@harness c06_crc_step
VP_HARNESS(c06_crc_step) {
	Crc32 x;
	vp_assert(x.getCrc32() == 0, "checksum of the empty message");
	x._crc = vp_u32(); uint32_t c = x._crc; uint8_t b = vp_u8();
	x.write(b);
	vp_assert(x._crc == spec(c, b), "one byte");
	vp_assert(x.getCrc32() == ~x._crc, "final complement");
	x.reset();
	vp_assert(x.getCrc32() == 0, "reset");
}
// a block of any length equals its bytes one after another: C(i) is the register after i bytes by write()
static uint8_t *g_d; static uint64_t g_n; static Crc32 *g_x;
static uint64_t C(uint64_t i) { return vp_fun(2, i, 0); }
static uint32_t one(uint32_t c, uint8_t b) { Crc32 y; y._crc = c; y.write(b); return y._crc; }
//@loop Crc32::blockWrite => crc_inv
extern "C" void crc_inv(uint64_t k) {
	vp_assume(vp_implies(k < g_n, C(k + 1) == one((uint32_t)C(k), g_d[vp_ite64(k < g_n, k, 0)])));
	vp_cand(C(k));
}
//@harness c06_crc_block kind=inductive
VP_HARNESS(c06_crc_block) {
	Crc32 x; x._crc = vp_u32(); g_n = vp_u64(); vp_assume(g_n < ((uint64_t)1 << 60)); g_d = (uint8_t *)vp_array(1, g_n + 1);
	vp_assume(C(0) == x._crc);
	// C is defined by bytewise feeding
	x.blockWrite(g_d, g_n);
	vp_assume(vp_implies(g_n >= 1, C(g_n) == one((uint32_t)C(g_n - 1), g_d[vp_ite64(g_n >= 1, g_n - 1, 0)])));
	vp_assert(x._crc == (uint32_t)C(g_n), "a block equals its bytes fed one by one");
}
