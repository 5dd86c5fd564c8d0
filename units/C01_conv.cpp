// C01: Base16/32/64/85 converters. Contract of one group (cycle) from an
// arbitrary reachable group boundary, contract of every tail, for every
// interleaving of write() and getNext() the converter permits.
#include "vp.h"
#include <exception>
#include "lightspeed/utils/base64.cpp"
#include "lightspeed/utils/base32.cpp"
#include "lightspeed/utils/base16.cpp"
namespace b85 {
}
#include "lightspeed/utils/base85.cpp"
using namespace LightSpeed;
//@function ByteToBase64Convert, Base64ToByteConvert, ByteToBase32Convert, Base32ToByteConvert
//@function ByteToBase16Convert, Base16ToByteConvert, ByteToBase85Convert, Base85ToByteConvert
//@harness c64_std kind=inductive
//@harness c64_url kind=inductive
//@harness c64_nopad kind=inductive
//@harness c32_std kind=inductive
//@harness c32_nopad kind=inductive
//@harness c16_up kind=inductive
//@harness c16_low kind=inductive
//@harness c85_enc kind=inductive
//@harness d64_std kind=inductive
//@harness d64_url kind=inductive
//@harness d64_nopad kind=inductive
//@harness d32_std kind=inductive cost=2
//@harness d32_lower kind=inductive cost=2
//@harness d16_up kind=inductive
//@harness d16_low kind=inductive
//@harness d85 kind=inductive timeout_ms=20000 quick_ms=700 cost=3
//@harness s_roundtrip kind=search
//@harness s_pieces kind=search

// ---- specification (RFC 4648; Z85 for base85) -----------------------------
static const char SPEC64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static const char SPEC64U[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
static const char SPEC32[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567";
static const char SPEC32L[] = "abcdefghijklmnopqrstuvwxyz234567";
static const char SPEC16U[] = "0123456789ABCDEF";
static const char SPEC16L[] = "0123456789abcdef";
static const char SPEC85[] = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ.-:+=^!/*?&<>()[]{}@%$#";
// j-th digit of B bits of the n bytes in[], zero padded
static unsigned specDigit(const byte *in, int n, int B, int j) {
	unsigned v = 0;
	for (int k = 0; k < B; k++) {
		int bit = j * B + k;
		unsigned b = bit / 8 < n ? (in[bit / 8] >> (7 - bit % 8)) & 1u : 0u;
		v = v << 1 | b;
	}
	return v;
}
static int specLen(int n, int B) { return (n * 8 + B - 1) / B; }

// encoder: one group of G bytes -> D digits of B bits, or a tail of t bytes
template<class C, int G, int D, int B>
static void encGroup(C *c, const char *alpha, char pad, const char *key) {
	vp_cycle_begin(c, sizeof(C), key);
	VP_ENSURES(c->needItems);
	VP_ENSURES(!c->hasItems);
	int t = vp_choice(G + 1);          // G = full group, less = tail
	byte in[G + 1];
	char out[D + 2];
	int w = 0, r = 0;
	while (w < t || (t == G && r < D)) {
		bool cr = c->hasItems, cw = w < t && c->needItems;
		if (cr && (!cw || vp_choice(2))) {
			char p = c->peek();
			out[r] = c->getNext();
			vp_assert(p == out[r], "peek shows the next character");
			r++;
			vp_assert(r <= D, "no more characters than the group has");
		} else if (cw) {
			in[w] = vp_u8(); c->write(in[w]); w++;
		} else vp_assert(false, "converter is stuck");
	}
	if (t < G) {
		c->flush();
		while (c->hasItems) {
			vp_assert(r <= D, "tail too long");
			out[r] = c->getNext(); r++;
		}
	}
	int digits = specLen(t, B);
	if (t == G) digits = D;
	int expect = (t && pad && t < G) ? D : digits;
	vp_assert(r == expect, "number of characters produced");
	for (int j = 0; j < expect; j++)
		vp_assert(out[j] == (j < digits ? alpha[specDigit(in, t, B, j)] : pad), "character is the RFC 4648 digit");
	vp_cover(t == G ? "full group" : t ? "tail" : "empty tail");
	if (t < G) return;
	vp_cycle_end(c, sizeof(C), key);
}
// decoder: a group of D digits of G arbitrary bytes, or a tail
template<class C, int G, int D, int B>
static void decGroup(C *c, const char *alpha, char pad, const char *key) {
	vp_cycle_begin(c, sizeof(C), key);
	VP_ENSURES(!c->hasItems);
	VP_ENSURES(c->needItems);
	int t = vp_choice(G + 1);
	byte in[G + 1]; char enc[D + 1]; byte out[G + 2];
	for (int i = 0; i < t; i++) in[i] = vp_u8();
	int digits = t == G ? D : specLen(t, B);
	for (int j = 0; j < digits; j++) enc[j] = alpha[specDigit(in, t, B, j)];
	int total = digits;
	if (pad && t && t < G) while (total < D) enc[total++] = pad;
	int w = 0, r = 0;
	while (w < total) {
		bool cr = c->hasItems;
		if (cr && (w == D || vp_choice(2))) {
			vp_assert(r < t, "no more bytes than were encoded");
			byte p = c->peek();
			out[r] = c->getNext();
			vp_assert(p == out[r], "peek shows the next byte"); r++;
		} else { vp_assert(c->needItems, "decoder refuses a character of the group"); c->write(enc[w]); w++; }
	}
	if (t < G) c->flush();
	while (c->hasItems) { vp_assert(r < t, "no more bytes than were encoded"); out[r] = c->getNext(); r++; }
	vp_assert(r == t, "number of bytes decoded");
	for (int j = 0; j < t; j++) vp_assert(out[j] == in[j], "decoded byte equals the encoded one");
	vp_cover(t == G ? "full group" : t ? "tail" : "empty tail");
	if (t < G) return;
	vp_cycle_end(c, sizeof(C), key);
}
template<class C> static void *mem() { return vp_alloc(sizeof(C)); }
VP_HARNESS(c64_std) { encGroup<ByteToBase64Convert, 3, 4, 6>(new (mem<ByteToBase64Convert>()) ByteToBase64Convert(), SPEC64, '=', "c"); }
VP_HARNESS(c64_url) { encGroup<ByteToBase64Convert, 3, 4, 6>(new (mem<ByteToBase64Convert>()) ByteToBase64Convert(ByteToBase64Convert::forUrlTable, '='), SPEC64U, '=', "c"); }
VP_HARNESS(c64_nopad) { encGroup<ByteToBase64Convert, 3, 4, 6>(new (mem<ByteToBase64Convert>()) ByteToBase64Convert(ByteToBase64Convert::standardTable, 0), SPEC64, 0, "c"); }
VP_HARNESS(c32_std) { encGroup<ByteToBase32Convert, 5, 8, 5>(new (mem<ByteToBase32Convert>()) ByteToBase32Convert(), SPEC32, '=', "c"); }
VP_HARNESS(c32_nopad) { encGroup<ByteToBase32Convert, 5, 8, 5>(new (mem<ByteToBase32Convert>()) ByteToBase32Convert(ByteToBase32Convert::standardTable, 0), SPEC32, 0, "c"); }
VP_HARNESS(c16_up) { encGroup<ByteToBase16Convert, 1, 2, 4>(new (mem<ByteToBase16Convert>()) ByteToBase16Convert(), SPEC16U, 0, "c"); }
VP_HARNESS(c16_low) { encGroup<ByteToBase16Convert, 1, 2, 4>(new (mem<ByteToBase16Convert>()) ByteToBase16Convert(ByteToBase16Convert::hexLowerCase), SPEC16L, 0, "c"); }
VP_HARNESS(d64_std) { decGroup<Base64ToByteConvert, 3, 4, 6>(new (mem<Base64ToByteConvert>()) Base64ToByteConvert(), SPEC64, '=', "d"); }
// the default decoder accepts the URL alphabet as well
VP_HARNESS(d64_url) { decGroup<Base64ToByteConvert, 3, 4, 6>(new (mem<Base64ToByteConvert>()) Base64ToByteConvert(), SPEC64U, '=', "d"); }
VP_HARNESS(d64_nopad) { decGroup<Base64ToByteConvert, 3, 4, 6>(new (mem<Base64ToByteConvert>()) Base64ToByteConvert(Base64ToByteConvert::forUrlTable, 0), SPEC64U, 0, "d"); }
VP_HARNESS(d32_std) { decGroup<Base32ToByteConvert, 5, 8, 5>(new (mem<Base32ToByteConvert>()) Base32ToByteConvert(), SPEC32, '=', "d"); }
VP_HARNESS(d32_lower) { decGroup<Base32ToByteConvert, 5, 8, 5>(new (mem<Base32ToByteConvert>()) Base32ToByteConvert(), SPEC32L, '=', "d"); }
VP_HARNESS(d16_up) { decGroup<Base16ToByteConvert, 1, 2, 4>(new (mem<Base16ToByteConvert>()) Base16ToByteConvert(), SPEC16U, 0, "d"); }
VP_HARNESS(d16_low) { decGroup<Base16ToByteConvert, 1, 2, 4>(new (mem<Base16ToByteConvert>()) Base16ToByteConvert(), SPEC16L, 0, "d"); }

// ---- base85 ----------------------------------------------------------------
static uint32_t be(const byte *in, int n) { uint32_t v = 0; for (int i = 0; i < 4; i++) v = v << 8 | (i < n ? in[i] : 0); return v; }
static char z85(uint32_t v, int j) { static const uint32_t p[5] = {52200625u, 614125u, 7225u, 85u, 1u}; return SPEC85[v / p[j] % 85]; }
VP_HARNESS(c85_enc) {
	ByteToBase85Convert *c = new (mem<ByteToBase85Convert>()) ByteToBase85Convert();
	vp_cycle_begin(c, sizeof(*c), "c");
	VP_ENSURES(c->needItems);
	VP_ENSURES(!c->hasItems);
	int t = vp_choice(5);
	byte in[4]; char out[6]; int r = 0;
	for (int w = 0; w < t; w++) { VP_ENSURES(c->needItems); VP_ENSURES(!c->hasItems); in[w] = vp_u8(); c->write(in[w]); }
	if (t < 4) c->flush();
	while (c->hasItems) { vp_assert(r < 5, "no more characters than the group has"); char p = c->peek(); out[r] = c->getNext(); vp_assert(p == out[r], "peek shows the next character"); r++; }
	vp_assert(r == (t ? t + 1 : 0), "number of characters produced");
	uint32_t v = be(in, t);
	for (int j = 0; j < r; j++) vp_assert(out[j] == z85(v, j), "character is the Z85 digit");
	vp_cover(t == 4 ? "full group" : t ? "tail" : "empty tail");
	if (t < 4) return;
	vp_cycle_end(c, sizeof(*c), "c");
}
// digits d[] of v: v = sum d[j]*85^(4-j), 0<=d[j]<85
VP_HARNESS(d85) {
	Base85ToByteConvert *c = new (mem<Base85ToByteConvert>()) Base85ToByteConvert();
	vp_cycle_begin(c, sizeof(*c), "d");
	VP_ENSURES(!c->hasItems);
	VP_ENSURES(c->needItems);
	int t = vp_choice(5);
	byte in[4]; byte out[5]; int r = 0;
	for (int w = 0; w < t; w++) in[w] = vp_u8();
	uint32_t v = be(in, t);
	// the digits are introduced by their defining equation, not by division
	uint64_t d[5];
	static const uint32_t p[5] = {52200625u, 614125u, 7225u, 85u, 1u};
	uint64_t sum = 0;
	if (vp_symbolic()) {
		for (int j = 0; j < 5; j++) { d[j] = vp_u8(); VP_REQUIRES(d[j] < 85); sum += d[j] * p[j]; }
		VP_REQUIRES(sum <= 0xFFFFFFFFu);
		v = (uint32_t)sum;
		if (t && t < 4) VP_REQUIRES((v & ((1u << (32 - 8 * t)) - 1)) == 0);
		for (int w = 0; w < t; w++) in[w] = (byte)(v >> (24 - 8 * w));
	} else for (int j = 0; j < 5; j++) d[j] = v / p[j] % 85;
	int n = t == 4 ? 5 : t ? t + 1 : 0;
	for (int j = 0; j < n; j++) { vp_assert(c->needItems && !c->hasItems, "decoder accepts the group"); c->write(SPEC85[d[j]]); }
	if (t < 4) c->flush();
	while (c->hasItems) { vp_assert(r < t, "no more bytes than were encoded"); byte q = c->peek(); out[r] = c->getNext(); vp_assert(q == out[r], "peek shows the next byte"); r++; }
	vp_assert(r == t, "number of bytes decoded");
	for (int j = 0; j < t; j++) vp_assert(out[j] == in[j], "decoded byte equals the encoded one");
	vp_cover(t == 4 ? "full group" : t ? "tail" : "empty tail");
	if (t < 4) return;
	vp_cycle_end(c, sizeof(*c), "d");
}

// ---- failing-input search on the real code (only after a failed obligation)
template<class E, class D> static void trip(E e, D d, const char *alpha, int B, char pad) {
	byte in[14]; char mid[40]; byte out[40]; int n = vp_choice(14), m = 0, k = 0;
	for (int i = 0; i < n; i++) {
		in[i] = vp_u8();
		vp_assert(e.needItems, "converter accepts input after its output was read");
		e.write(in[i]);
		while (e.hasItems && (!e.needItems || vp_choice(2))) mid[m++] = e.getNext();
	}
	e.flush();
	while (e.hasItems) { vp_assert(m < 38, "output too long"); mid[m++] = e.getNext(); }
	int digits = specLen(n, B), total = digits;
	if (pad) while (total * B % 8) total++;
	vp_assert(m == total, "number of characters");
	for (int j = 0; j < m; j++) vp_assert(mid[j] == (j < digits ? alpha[specDigit(in, n, B, j)] : pad), "character is the RFC 4648 digit");
	for (int j = 0; j < m; j++) { d.write(mid[j]); while (d.hasItems && k < 38) out[k++] = d.getNext(); }
	d.flush();
	while (d.hasItems && k < 38) out[k++] = d.getNext();
	vp_assert(k == n, "number of bytes");
	for (int j = 0; j < n; j++) vp_assert(out[j] == in[j], "decoded byte");
}
VP_HARNESS(s_roundtrip) {
	switch (vp_choice(8)) {
	case 0: trip(ByteToBase64Convert(), Base64ToByteConvert(), SPEC64, 6, '='); break;
	case 1: trip(ByteToBase64Convert(ByteToBase64Convert::forUrlTable, 0), Base64ToByteConvert(), SPEC64U, 6, 0); break;
	case 2: trip(ByteToBase32Convert(), Base32ToByteConvert(), SPEC32, 5, '='); break;
	case 3: trip(ByteToBase32Convert(ByteToBase32Convert::standardTable, 0), Base32ToByteConvert(), SPEC32, 5, 0); break;
	case 4: trip(ByteToBase16Convert(), Base16ToByteConvert(), SPEC16U, 4, 0); break;
	case 5: trip(ByteToBase16Convert(ByteToBase16Convert::hexLowerCase), Base16ToByteConvert(), SPEC16L, 4, 0); break;
	default: {
		ByteToBase85Convert e; Base85ToByteConvert d; byte in[14]; char mid[40]; byte out[40]; int n = vp_choice(14), m = 0, k = 0;
		for (int i = 0; i < n; i++) { in[i] = vp_u8(); e.write(in[i]); while (e.hasItems) { mid[m++] = e.getNext(); } }
		e.flush(); while (e.hasItems && m < 38) mid[m++] = e.getNext();
		vp_assert(m == n / 4 * 5 + (n % 4 ? n % 4 + 1 : 0), "number of characters");
		for (int j = 0; j < m; j++) vp_assert(mid[j] == z85(be(in + j / 5 * 4, n - j / 5 * 4), j % 5), "character is the Z85 digit");
		for (int j = 0; j < m; j++) { d.write(mid[j]); while (d.hasItems && k < 38) out[k++] = d.getNext(); }
		d.flush(); while (d.hasItems && k < 38) out[k++] = d.getNext();
		vp_assert(k == n, "number of bytes");
		for (int j = 0; j < n; j++) vp_assert(out[j] == in[j], "decoded byte");
	} }
}
VP_HARNESS(s_pieces) {
	switch (vp_choice(6)) {
	case 0: { Base64ToByteConvert d; decGroup<Base64ToByteConvert, 3, 4, 6>(&d, SPEC64, '=', "d"); break; }
	case 1: { Base32ToByteConvert d; decGroup<Base32ToByteConvert, 5, 8, 5>(&d, SPEC32L, '=', "d"); break; }
	case 2: { Base16ToByteConvert d; decGroup<Base16ToByteConvert, 1, 2, 4>(&d, SPEC16L, 0, "d"); break; }
	case 3: { ByteToBase64Convert d; encGroup<ByteToBase64Convert, 3, 4, 6>(&d, SPEC64, '=', "d"); break; }
	case 4: { ByteToBase32Convert d; encGroup<ByteToBase32Convert, 5, 8, 5>(&d, SPEC32, '=', "d"); break; }
	default: { Base64ToByteConvert d; decGroup<Base64ToByteConvert, 3, 4, 6>(&d, SPEC64U, '=', "d"); break; }
	}
}
