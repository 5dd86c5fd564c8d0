// C06: SHA-1 block buffering, padding and output
//@flags -D_GLIBCXX_ASSERTIONS
#include "vp.h"
#include "lightspeed/base/types.h"
#include "lightspeed/utils/impl/sha1.cpp"
using namespace LightSpeed;
//@function SHA1::final, SHA1::update, SHA1::read, SHA1::buffer_to_block, SHA1::reset
//@assume std::istream::read, gcount and operator bool behave as the C++ standard says; std::ostringstream::put/str collect the characters put
static SHA1 *g_s; static uint8_t g_m[256]; static uint64_t g_len, g_blk; static bool g_pad; static uint64_t g_before;
static uint64_t g_dig[5]; static unsigned char g_out[64]; static unsigned g_nout;
// the padded message: g_m[0..g_len) ends it, g_before bytes (whole blocks) precede it
static uint8_t msgbyte(uint64_t i) {
	if (i < g_len) return g_m[i];
	uint64_t padded = ((g_len + 8) / 64 + 1) * 64, bits = (g_before + g_len) * 8;
	return i == g_len ? 0x80 : i < padded - 8 ? 0 : (uint8_t)(bits >> 8 * (7 - (i - (padded - 8))));
}
//@replace ^LightSpeed::SHA1::transform\( => ghost_transform
extern "C" void ghost_transform(SHA1 *s, SHA1::uint32 *blk) {
	vp_assert(s == g_s, "same state");
	for (int i = 0; i < 64; i++)
		vp_assert((uint8_t)(blk[i / 4] >> 8 * (3 - i % 4)) == msgbyte(g_blk * 64 + i), "block of the padded message, big endian");
	g_blk++; s->transforms++;
	for (int i = 0; i < 5; i++) g_dig[i] = s->digest[i] = vp_u64();
}
//@stub ^std::__cxx11::basic_ostringstream<char.*::~?basic_ostringstream\( => nop
//@replace ^std::(ostream|basic_ostream<char.*>)::put\(char\) => ghost_put
extern "C" void *ghost_put(void *t, char c) { if (g_nout < 64) g_out[g_nout] = c; g_nout++; return t; }
//@replace ^std::__cxx11::basic_ostringstream<char.*>::str\(\) const => ghost_str
extern "C" std::string ghost_str(void *) { return std::string(); }
//@harness c06_sha1_final native=no
VP_HARNESS(c06_sha1_final) {
	SHA1 s; g_s = &s;
	vp_assert(s.buffer.size() == 0 && s.transforms == 0, "initial state");
	unsigned n = vp_choice(64);
	uint64_t k = vp_u64(); vp_assume(k < ((uint64_t)1 << 55)); s.transforms = k; g_before = k * 64; g_len = n; g_blk = 0; g_nout = 0;
	for (unsigned i = 0; i < n; i++) { g_m[i] = vp_u8(); s.buffer += (char)g_m[i]; }
	for (int i = 0; i < 5; i++) s.digest[i] = vp_u64();
	s.final();
	vp_assert(g_blk == (n < 56 ? 1 : 2), "number of padded blocks");
	vp_assert(g_nout == 20, "20 bytes");
	for (int i = 0; i < 20; i++) vp_assert(g_out[i] == (uint8_t)(g_dig[i / 4] >> 8 * (3 - i % 4)), "digest is the chaining value, big endian");
	static const uint32_t init[] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
	for (int i = 0; i < 5; i++) vp_assert((uint32_t)s.digest[i] == init[i], "initial chaining value");
	vp_assert(s.buffer.size() == 0 && s.transforms == 0, "ready for the next message");
}
// pieces: b bytes already buffered, then a stream of n more
static uint64_t g_pos, g_end, g_cnt; static bool g_ok;
//@replace ^std::(istream|basic_istream<char.*>)::read\(char\*, long\) => ghost_read
extern "C" void *ghost_read(void *t, char *p, long n) {
	g_cnt = 0;
	if (!g_ok) return t;
	while (g_cnt < (uint64_t)n && g_pos < g_end) p[g_cnt++] = g_m[g_pos++];
	if (g_cnt < (uint64_t)n) g_ok = false;
	return t;
}
//@replace ^std::(istream|basic_istream<char.*>)::gcount\(\) const => ghost_gcount
extern "C" long ghost_gcount(void *) { return g_cnt; }
//@replace ^std::(ios|basic_ios<char.*>)::operator bool\(\) const => ghost_good
extern "C" bool ghost_good(void *) { return g_ok; }
//@harness c06_sha1_update kind=bounded bound=7x15-lengths native=no
VP_HARNESS(c06_sha1_update) {
	SHA1 s; g_s = &s; g_blk = 0; g_before = 0;
	static const unsigned B[] = {0, 1, 7, 32, 55, 56, 63}, N[] = {0, 1, 2, 8, 9, 31, 32, 33, 56, 57, 63, 64, 65, 127, 128};
	unsigned b = B[vp_choice(7)], n = N[vp_choice(15)];
	g_len = 256; g_pos = b; g_end = b + n; g_ok = true;
	for (unsigned i = 0; i < b + n; i++) g_m[i] = vp_u8();
	for (unsigned i = 0; i < b; i++) s.buffer += (char)g_m[i];
	struct { void *vptr; char rest[512]; } is;
	static long vt[8]; is.vptr = vt + 4; // virtual base at offset 0
	s.update((std::istream &)is);
	vp_assert(g_blk == (b + n) / 64, "every complete block is compressed once");
	vp_assert(s.buffer.size() == (b + n) % 64, "the rest stays buffered");
	for (unsigned i = 0; i < (b + n) % 64; i++) vp_assert((uint8_t)s.buffer[i] == g_m[(b + n) / 64 * 64 + i], "the rest stays buffered");
}
