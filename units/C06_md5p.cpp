// C06: MD5 compression function against RFC 1321
#include "vp.h"
#include "lightspeed/utils/impl/md5.cpp"
#include "md5_spec.h"
//@function md5_process, md5_init
static uint8_t *blk(int off) { return (uint8_t *)vp_alloc(64 + off) + off; }
static void step(int off) {
	md5_state_t st; uint32_t in[4], out[4];
	for (int i = 0; i < 4; i++) st.abcd[i] = in[i] = vp_u32();
	uint8_t *d = blk(off);
	for (int i = 0; i < 64; i++) d[i] = vp_u8();
	md5_process(&st, d);
	md5_spec(in, d, out);
	for (int i = 0; i < 4; i++) vp_assert(st.abcd[i] == out[i], "chaining value after a block");
}
//@harness c06_md5_block sweep=60 name=1 end=no
VP_HARNESS(c06_md5_block) { step(0); }
//@harness c06_md5_block_unaligned sweep=60 name=1 end=no
VP_HARNESS(c06_md5_block_unaligned) { step(1); }
//@harness c06_md5_init
VP_HARNESS(c06_md5_init) {
	md5_state_t st; md5_init(&st);
	vp_assert(st.abcd[0] == 0x67452301 && st.abcd[1] == 0xefcdab89 && st.abcd[2] == 0x98badcfe && st.abcd[3] == 0x10325476, "initial chaining value");
	vp_assert(st.count[0] == 0 && st.count[1] == 0, "empty message");
}
