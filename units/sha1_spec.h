// FIPS 180-4, section 6.1.2. The words are kept in the low 32 bits of a wider
// integer type, whose high half is not used: WORD = uint32_t is the standard
// itself; c06_sha1_low shows that each step of the wide version has the same low
// halves.
template<class WORD> struct Sha1Spec {
	static WORD rotl(WORD x, int n) { return (x << n) | ((x & 0xffffffff) >> (32 - n)); }
	static WORD sched(WORD a, WORD b, WORD c, WORD d) { return rotl(a ^ b ^ c ^ d, 1); }
	static WORD f(int t, WORD b, WORD c, WORD d) {
		if (t < 20) return (b & c) ^ (~b & d);
		if (t < 40) return b ^ c ^ d;
		if (t < 60) return (b & c) ^ (b & d) ^ (c & d);
		return b ^ c ^ d;
	}
	static WORD k(int t) { return t < 20 ? 0x5a827999u : t < 40 ? 0x6ed9eba1u : t < 60 ? 0x8f1bbcdcu : 0xca62c1d6u; }
	static WORD step(int t, WORD a, WORD b, WORD c, WORD d, WORD e, WORD w) { return rotl(a, 5) + f(t, b, c, d) + e + k(t) + w; }
	static void compress(WORD H[5], const WORD M[16]) {
		WORD W[80];
		for (int t = 0; t < 16; t++) W[t] = M[t];
		for (int t = 16; t < 80; t++) W[t] = sched(W[t - 3], W[t - 8], W[t - 14], W[t - 16]);
		WORD a = H[0], b = H[1], c = H[2], d = H[3], e = H[4];
		for (int t = 0; t < 80; t++) {
			WORD T = step(t, a, b, c, d, e, W[t]);
			e = d; d = c; c = rotl(b, 30); b = a; a = T;
		}
		H[0] += a; H[1] += b; H[2] += c; H[3] += d; H[4] += e;
	}
};
