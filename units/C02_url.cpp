// C02: URL percent-encoding
#include "vp.h"
#include <exception>
#include "lightspeed/utils/base16.cpp"
#include "lightspeed/utils/urlencode.cpp"
using namespace LightSpeed;
//@function UrlEncodeConvert, UrlDecodeConvert, UrlEncoder, UrlDecoder
//@harness enc kind=inductive
//@harness dec kind=inductive
//@harness enc_old kind=inductive
//@harness dec_old kind=inductive
//@harness s_url kind=search

static bool unreserved(byte x) {
	return vp_or(vp_or(vp_and(x >= 'A', x <= 'Z'), vp_and(x >= 'a', x <= 'z')), vp_or(vp_and(x >= '0', x <= '9'), vp_or(x == '_', x == '-')));
}
static char hexd(unsigned d, bool upper) { return (char)(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10); }
static int hexval(byte c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
// what one byte may become: itself when unreserved, plus for a space, or an escape
static void checkEnc(byte x, const char *o, int n) {
	if (n == 1) vp_assert(vp_or(vp_and(unreserved(x), o[0] == (char)x), vp_and(x == ' ', o[0] == '+')), "unescaped character is unreserved");
	else {
		vp_assert(n == 3, "an escape has three characters");
		vp_assert(o[0] == '%', "escape starts with a percent sign");
		vp_assert(hexval(o[1]) == x >> 4, "high digit");
		vp_assert(hexval(o[2]) == (x & 15), "low digit");
	}
}
VP_HARNESS(enc) {
	UrlEncodeConvert *e = new (vp_alloc(sizeof(UrlEncodeConvert))) UrlEncodeConvert();
	vp_cycle_begin(e, sizeof(*e), "e");
	VP_ENSURES(e->needItems);
	VP_ENSURES(!e->hasItems);
	byte x = vp_u8(); char o[4]; int n = 0;
	e->write((char)x);
	while (e->hasItems) { vp_assert(n < 3, "at most three characters"); vp_assert(!e->needItems, "busy"); char p = e->peek(); o[n] = e->getNext(); vp_assert(p == o[n], "peek shows the next character"); n++; }
	checkEnc(x, o, n);
	if (unreserved(x)) vp_assert(n == 1, "unreserved characters stay");
	vp_cover(n == 1 ? "plain" : "escape");
	vp_cycle_end(e, sizeof(*e), "e");
}
VP_HARNESS(enc_old) {
	UrlEncoder *e = new (vp_alloc(sizeof(UrlEncoder))) UrlEncoder();
	vp_cycle_begin(e, sizeof(*e), "e");
	VP_ENSURES(e->needItems());
	VP_ENSURES(!e->hasItems());
	byte x = vp_u8(); char o[4]; int n = 0;
	e->input((char)x);
	while (e->hasItems()) { vp_assert(n < 3, "at most three characters"); vp_assert(!e->needItems(), "busy"); o[n] = e->output(); n++; }
	checkEnc(x, o, n);
	if (unreserved(x)) vp_assert(n == 1, "unreserved characters stay");
	vp_cycle_end(e, sizeof(*e), "e");
}
// one byte in any of the forms an encoder may use
static int form(byte *pv, char *in) {
	byte x = vp_u8(); *pv = x;
	switch (vp_choice(3)) {
	case 0: vp_assume(x != '%' && x != '+'); in[0] = (char)x; return 1;
	case 1: vp_assume(x == ' '); in[0] = '+'; return 1;
	default: in[0] = '%'; in[1] = hexd(x >> 4, vp_choice(2)); in[2] = hexd(x & 15, vp_choice(2)); return 3;
	}
}
VP_HARNESS(dec) {
	UrlDecodeConvert *d = new (vp_alloc(sizeof(UrlDecodeConvert))) UrlDecodeConvert();
	vp_cycle_begin(d, sizeof(*d), "d");
	VP_ENSURES(d->needItems);
	VP_ENSURES(!d->hasItems);
	byte x; char in[3]; int n = form(&x, in);
	for (int i = 0; i < n; i++) { vp_assert(d->needItems && !d->hasItems, "decoder waits for the whole escape"); d->write(in[i]); }
	vp_assert(d->hasItems && !d->needItems, "byte is available");
	vp_assert((byte)d->peek() == x, "peek shows the byte");
	vp_assert((byte)d->getNext() == x, "decoded byte");
	vp_assert(!d->hasItems && d->needItems, "one byte only");
	vp_cover(n == 1 ? "plain" : "escape");
	vp_cycle_end(d, sizeof(*d), "d");
}
VP_HARNESS(dec_old) {
	UrlDecoder *d = new (vp_alloc(sizeof(UrlDecoder))) UrlDecoder();
	vp_cycle_begin(d, sizeof(*d), "d");
	VP_ENSURES(d->needItems());
	VP_ENSURES(!d->hasItems());
	byte x; char in[3]; int n = form(&x, in);
	for (int i = 0; i < n; i++) { vp_assert(d->needItems(), "decoder waits for the whole escape"); d->input(in[i]); }
	vp_assert(d->hasItems() && !d->needItems(), "byte is available");
	vp_assert((byte)d->output() == x, "decoded byte");
	vp_assert(!d->hasItems() && d->needItems(), "one byte only");
	vp_cycle_end(d, sizeof(*d), "d");
}
VP_HARNESS(s_url) {
	UrlEncodeConvert e; UrlDecodeConvert d; UrlEncoder eo; UrlDecoder dd;
	int m = vp_choice(8);
	for (int k = 0; k < m; k++) {
		byte x = vp_u8(); char o[4]; int n = 0;
		if (vp_choice(2)) { vp_assert(e.needItems, "ready"); e.write((char)x); while (e.hasItems && n < 3) o[n++] = e.getNext(); vp_assert(!e.hasItems, "too long"); }
		else { eo.input((char)x); while (eo.hasItems() && n < 3) o[n++] = eo.output(); vp_assert(!eo.hasItems(), "too long"); }
		checkEnc(x, o, n);
		if (vp_choice(2)) n = form(&x, o);
		for (int i = 0; i < n; i++) { vp_assert(d.needItems && dd.needItems(), "ready"); d.write(o[i]); dd.input(o[i]); }
		vp_assert(d.hasItems && (byte)d.getNext() == x, "decoded"); vp_assert(dd.hasItems() && (byte)dd.output() == x, "decoded (old)");
	}
}
