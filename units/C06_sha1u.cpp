// C06: SHA-1 fed from a stream of any length, on top of any buffered beginning
//@flags -D_GLIBCXX_ASSERTIONS
#include "vp.h"
#include <string.h>
#include "lightspeed/base/types.h"
#include "lightspeed/utils/impl/sha1.cpp"
using namespace LightSpeed;
//@function SHA1::update(istream), SHA1::read, SHA1::buffer_to_block
//@assume std::istream::read, gcount and operator bool behave as the C++ standard says
//@assume std::string behaves the same whatever its capacity (the inductive harness starts with one of at least a block)
static SHA1 *g_s; static uint8_t *g_m; static uint64_t g_pos, g_end, g_cnt, g_blk, g_probe; static bool g_ok;
//@replace ^LightSpeed::SHA1::transform\( => ghost_transform
extern "C" void ghost_transform(SHA1 *s, SHA1::uint32 *blk) {
	vp_assert(s == g_s, "same state");
	for (int i = 0; i < 64; i++)
		vp_assert(vp_implies(g_probe == i, (uint8_t)(blk[i / 4] >> 8 * (3 - i % 4)) == g_m[g_blk * 64 + i]), "the next block of the message, big endian");
	g_blk++; s->transforms++;
}
//@replace ^std::(istream|basic_istream<char.*>)::read\(char\*, long\) => ghost_read
extern "C" void *ghost_read(void *t, char *p, long n) {
	g_cnt = 0;
	if (!g_ok) return t;
	uint64_t left = g_end - g_pos;
	if (left < (uint64_t)n) { g_cnt = left; g_ok = false; } else g_cnt = n;
	memcpy(p, g_m + g_pos, g_cnt);
	g_pos += g_cnt;
	return t;
}
//@replace ^std::(istream|basic_istream<char.*>)::gcount\(\) const => ghost_gcount
extern "C" long ghost_gcount(void *) { return g_cnt; }
//@replace ^std::(ios|basic_ios<char.*>)::operator bool\(\) const => ghost_good
static bool g_first; static uint64_t g_b;
extern "C" bool ghost_good(void *) {
	if (g_first) {
		// the loop is entered as its invariant requires
		const std::string &b = g_s->buffer; uint64_t n = b.size();
		vp_assert(g_blk == 0 && n == g_pos, "every byte read is buffered");
		vp_assert(g_ok ? n == 64 : n < 64 && g_pos == g_end, "the stream goes on while blocks are full");
		if (g_probe < n) vp_assert((uint8_t)b.data()[g_probe] == g_m[g_probe], "the buffered bytes are the next ones of the message");
		vp_end();
	}
	return g_ok;
}
//@loop SHA1::update\(std::(istream|basic_istream) => upd_inv
extern "C" void upd_inv(uint64_t k) {
	const std::string &b = g_s->buffer;
	uint64_t n = b._M_string_length;
	vp_inv(g_pos <= g_end, "no byte past the end");
	vp_inv(n <= 64, "at most a block is buffered");
	vp_inv(vp_implies(g_ok, n == 64), "the stream goes on while blocks are full");
	vp_inv(vp_implies(!g_ok, vp_and(n < 64, g_pos == g_end)), "a short read is the last one");
	vp_inv(g_blk * 64 + n == g_pos, "every byte read is compressed or buffered");
	vp_inv(g_blk <= g_end / 64, "blocks compressed");
	uint64_t i = vp_ite64(g_blk * 64 + g_probe < g_end, g_blk * 64 + g_probe, 0);
	vp_inv(vp_implies(g_probe < n, (uint8_t)b._M_dataplus._M_p[g_probe] == g_m[i]), "the buffered bytes are the next ones of the message");
}
static void start(SHA1 &s, unsigned b) {
	g_s = &s; g_blk = 0; uint64_t n = vp_u64(); vp_assume(n < ((uint64_t)1 << 60));
	g_probe = vp_range(0, 63);
	g_m = (uint8_t *)vp_array(1, n + 128); g_pos = b; g_end = b + n; g_ok = true;
	s.buffer.reserve(64);
	for (unsigned i = 0; i < b; i++) s.buffer += (char)g_m[i];
	struct { void *vptr; char rest[512]; } is;
	static long vt[8]; is.vptr = vt + 4; // virtual base at offset 0
	s.update((std::istream &)is);
}
//@harness c06_sha1_stream kind=inductive native=no quick_ms=700 int_ms=300 max_paths=5000 cost=9 tier=thorough
VP_HARNESS(c06_sha1_stream) {
	SHA1 s; start(s, 64);   // the first read adds nothing: the loop is entered with a full buffer
	uint64_t r = g_end - g_blk * 64;
	vp_assert(r < 64 && s.buffer.size() == r, "every complete block is compressed once, the rest stays buffered");
	if (g_probe < r) vp_assert((uint8_t)s.buffer.data()[g_probe] == g_m[g_blk * 64 + g_probe], "the rest stays buffered");
}
//@harness c06_sha1_join0 native=no quick_ms=700 int_ms=300 end=no cost=8
VP_HARNESS(c06_sha1_join0) { SHA1 s; g_first = true; start(s, 0 + vp_choice(16)); }
//@harness c06_sha1_join1 native=no quick_ms=700 int_ms=300 end=no cost=8
VP_HARNESS(c06_sha1_join1) { SHA1 s; g_first = true; start(s, 16 + vp_choice(16)); }
//@harness c06_sha1_join2 native=no quick_ms=700 int_ms=300 end=no cost=8
VP_HARNESS(c06_sha1_join2) { SHA1 s; g_first = true; start(s, 32 + vp_choice(16)); }
//@harness c06_sha1_join3 native=no quick_ms=700 int_ms=300 end=no cost=8
VP_HARNESS(c06_sha1_join3) { SHA1 s; g_first = true; start(s, 48 + vp_choice(16)); }
