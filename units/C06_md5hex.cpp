// C06: MD5 digest as hexadecimal text, and the iterator over the digest functions
#include "vp.h"
#include "lightspeed/base/types.h"
#include "lightspeed/utils/impl/md5.cpp"
#include "lightspeed/utils/md5iter.h"
using namespace LightSpeed;
//@function HashMD5::digest, HashMD5::hexdigest, HashMD5::write, HashMD5::finish
typedef HashMD5<byte> H;
static H *g_h;
static char dig(uint8_t x) { return (char)vp_ite64(x < 10, x + '0', x - 10 + 'a'); }
static uint8_t nib(unsigned j) { return j & 1 ? g_h->_digest[j / 2] & 15 : g_h->_digest[j / 2] >> 4; }
//@loop HashMD5<.*hexdigest #1 => hex_inv
extern "C" void hex_inv(uint64_t k) {
	for (unsigned j = 0; j < 32; j++)
		vp_inv((uint8_t)g_h->_hexdigest[j] == (uint8_t)vp_ite64(j < k, (uint8_t)dig(nib(j)), nib(j)), "digits before k are characters");
	vp_cand(k);
}
//@harness c06_md5_hex kind=inductive native=no quick_ms=500
VP_HARNESS(c06_md5_hex) {
	H h; g_h = &h;
	for (int i = 0; i < 16; i++) h._digest[i] = vp_u8();
	h._hexdigest[0] = 0;
	ConstStringT<byte> d = h.digest(); ConstStringT<char> x = h.hexdigest();
	vp_assert(d.length() == 16 && x.length() == 32, "lengths");
	for (unsigned j = 0; j < 32; j++) vp_assert(x[j] == dig(nib(j)), "hexadecimal digest");
	for (unsigned j = 0; j < 16; j++) vp_assert(d[j] == h._digest[j], "binary digest");
}
// the iterator hands exactly its input to md5_append
static const md5_byte_t *it_p; static int it_c; static md5_state_t *it_s; static unsigned it_n;
//@replace ^md5_append\( => ghost_append
extern "C" void ghost_append(md5_state_t *s, const md5_byte_t *p, int n) { it_s = s; it_p = p; it_c = n; it_n++; }
//@harness c06_md5_iter native=no
VP_HARNESS(c06_md5_iter) {
	H h; it_n = 0;
	for (int i = 0; i < 4; i++) vp_assert(h.st.abcd[i] == ((const uint32_t[]){0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476})[i], "initial state");
	vp_assert(h.st.count[0] == 0 && h.st.count[1] == 0, "initial length");
	byte b = vp_u8();
	h.write(b);
	vp_assert(it_n == 1 && it_s == &h.st && it_c == 1, "one byte");
	vp_assert(*it_p == b, "one byte");
	unsigned n = vp_u32(); vp_assume(n < 0x7fffffff - 63);
	byte *m = (byte *)vp_array(1, (uint64_t)n + 1);
	ConstStringT<byte> blk(m, n);
	natural r = h.blockWrite(blk, true);
	vp_assert(r == n && it_n == 2 && it_s == &h.st && it_c == (int)n && it_p == m, "a block");
}
