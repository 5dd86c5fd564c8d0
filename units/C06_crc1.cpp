// C06: CRC-32, the block entry point on one byte and on none
#include "vp.h"
#include "lightspeed/utils/crc32.h"
#include "lightspeed/utils/crc32.cpp"
using namespace LightSpeed;
//@function Crc32::blockWrite
static uint32_t spec(uint32_t c, uint8_t b) {
	c ^= b;
	for (int i = 0; i < 8; i++) c = (c >> 1) ^ (0xEDB88320u & (0u - (c & 1)));
	return c;
}
//@harness c06_crc_block1
VP_HARNESS(c06_crc_block1) {
	Crc32 x; x._crc = vp_u32(); uint32_t c = x._crc; uint8_t b[2]; b[0] = vp_u8(); b[1] = vp_u8();
	x.blockWrite(b, 1);
	vp_assert(x._crc == spec(c, b[0]), "one byte as a block");
	x.blockWrite(b, 0);
	vp_assert(x._crc == spec(c, b[0]), "empty block");
}
