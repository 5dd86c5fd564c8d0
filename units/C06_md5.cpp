// C06: MD5 buffering and padding: the blocks handed to the compression function are
// exactly the blocks of the padded message, for any split into pieces
#include "vp.h"
#include "lightspeed/base/types.h"
#include "lightspeed/utils/impl/md5.cpp"
#include "lightspeed/utils/md5iter.h"
using namespace LightSpeed;
//@function md5_append, md5_finish, HashMD5::write/blockWrite/finish/digest/hexdigest
//@assume one md5_append call takes at most 2^31 - 64 bytes (its parameter is an int)
// contract of the compression function: called with the next block of the message
static const uint8_t *g_msg; static uint64_t g_blk, g_base; static uint64_t g_probe; static bool g_pad; static uint64_t g_total; static uint64_t g_expect;
static md5_state_t *g_st;
static uint8_t padbyte(uint64_t i) {
	// byte i (>= message length) of the padded message
	uint64_t padded = ((g_total + 8) / 64 + 1) * 64;
	uint64_t bits = g_total * 8;
	return i == g_total ? 0x80 : i < padded - 8 ? 0 : (uint8_t)(bits >> 8 * (i - (padded - 8)));
}
//@replace ^md5_process\( => ghost_process
extern "C" void ghost_process(md5_state_t *st, const md5_byte_t *d) {
	vp_assert(st == g_st, "same state");
	if (!g_pad) {
		// an arbitrary byte of the block
		vp_assert(d[g_probe] == g_msg[g_base + g_blk * 64 + g_probe], "block holds the next 64 bytes of the message");
	} else {
		for (int i = 0; i < 64; i++) {
			uint64_t k = g_expect * 64 + i;
			uint8_t want = k < (g_total & 63) ? g_msg[k] : padbyte((g_total & ~(uint64_t)63) + k);
			vp_assert(d[i] == want, "padded block");
		}
		g_expect++;
		for (int i = 0; i < 4; i++) st->abcd[i] = vp_u32();
	}
	g_blk++;
}
//@loop ^md5_append => append_inv
static uint64_t g_len;   // bytes from the start of the block that was being filled
extern "C" void append_inv(uint64_t) { vp_inv(g_blk <= g_len >> 6, "no more blocks than the message has"); }

static void append_case(unsigned lo, unsigned hi) {
	md5_state_t st; g_st = &st; g_pad = false;
	unsigned off = lo + vp_choice(hi - lo);
	uint64_t blocks = vp_u64(); vp_assume(blocks < ((uint64_t)1 << 55));
	uint64_t total = (blocks << 6) | off;            // bytes so far, kept modulo 2^61 by the bit count
	st.count[0] = (uint32_t)(total << 3); st.count[1] = (uint32_t)(total >> 29);
	for (int i = 0; i < 4; i++) st.abcd[i] = vp_u32();
	uint64_t n = vp_range(0, 0x7fffffff - 63);
	vp_assume(total + n < ((uint64_t)1 << 61));
	// the message from the start of the current block on
	uint8_t *m = (uint8_t *)vp_array(1, 64 + n); g_msg = m; g_base = 0; g_blk = 0; g_probe = vp_range(0, 63);
	for (unsigned i = 0; i < off; i++) st.buf[i] = m[i];
	g_len = off + n;
	md5_append(&st, m + off, (int)n);
	vp_assert(g_blk == (off + n) / 64, "every complete block is compressed once");
	vp_assert(st.count[0] == (uint32_t)((total + n) << 3) && st.count[1] == (uint32_t)((total + n) >> 29), "length in bits");
	// an arbitrary byte of what stays buffered
	uint64_t rest = off + n - 64 * g_blk, j = vp_range(0, 63);
	vp_assert(rest < 64, "less than a block stays in the buffer");
	if (j < rest) vp_assert(st.buf[j] == m[64 * g_blk + j], "the tail stays in the buffer");
}
//@harness c06_md5_append0 kind=inductive cost=9 max_paths=200000 quick_ms=700 int_ms=300
VP_HARNESS(c06_md5_append0) { append_case(0, 1); }
//@harness c06_md5_append1 kind=inductive cost=9 max_paths=200000 quick_ms=700 int_ms=300
VP_HARNESS(c06_md5_append1) { append_case(1, 9); }
//@harness c06_md5_append2 kind=inductive cost=9 max_paths=200000 quick_ms=700 int_ms=300
VP_HARNESS(c06_md5_append2) { append_case(9, 18); }
//@harness c06_md5_append3 kind=inductive cost=9 max_paths=200000 quick_ms=700 int_ms=300
VP_HARNESS(c06_md5_append3) { append_case(18, 27); }
//@harness c06_md5_append4 kind=inductive cost=9 max_paths=200000 quick_ms=700 int_ms=300
VP_HARNESS(c06_md5_append4) { append_case(27, 36); }
//@harness c06_md5_append5 kind=inductive cost=9 max_paths=200000 quick_ms=700 int_ms=300
VP_HARNESS(c06_md5_append5) { append_case(36, 45); }
//@harness c06_md5_append6 kind=inductive cost=9 max_paths=200000 quick_ms=700 int_ms=300
VP_HARNESS(c06_md5_append6) { append_case(45, 54); }
//@harness c06_md5_append7 kind=inductive cost=9 max_paths=200000 quick_ms=700 int_ms=300
VP_HARNESS(c06_md5_append7) { append_case(54, 64); }
//@harness c06_md5_finish cost=5
VP_HARNESS(c06_md5_finish) {
	md5_state_t st; g_st = &st; g_pad = true;
	unsigned off = vp_choice(64);
	uint64_t total = vp_u64(); vp_assume((total & 63) == off && total < ((uint64_t)1 << 61));
	g_total = total; g_expect = 0; g_len = 128; g_blk = 0;
	st.count[0] = (uint32_t)(total << 3); st.count[1] = (uint32_t)(total >> 29);
	uint8_t m[64]; g_msg = m;
	for (unsigned i = 0; i < 64; i++) { m[i] = vp_u8(); st.buf[i] = i < off ? m[i] : vp_u8(); }
	for (int i = 0; i < 4; i++) st.abcd[i] = vp_u32();
	md5_byte_t dg[16];
	md5_finish(&st, dg);
	vp_assert(g_expect == (off < 56 ? 1 : 2), "number of padding blocks");
	for (int i = 0; i < 16; i++) vp_assert(dg[i] == (uint8_t)(st.abcd[i / 4] >> 8 * (i % 4)), "digest is the chaining value, little endian");
}
