// C03: UTF-8 converters and filters. One code point from an arbitrary state
// between characters (stable-cell induction); whole strings as bounded checks.
#include "vp.h"
#include <exception>
#include "lightspeed/base/streams/utf.cpp"
#include "lightspeed/base/containers/string.tcc"
using namespace LightSpeed;
//@function Utf8ToWideConvert, WideToUtf8Convert, Utf8ToWideFilter, WideToUtf8Filter
//@harness enc_conv kind=inductive
//@harness dec_conv kind=inductive
//@harness enc_filter kind=inductive
//@harness dec_filter kind=inductive
//@harness dec_conv_bad kind=inductive
//@harness dec_filter_bad kind=inductive
//@harness str_write kind=bounded bound=2-code-points
//@harness str_read kind=bounded bound=2-code-points
//@harness s_text kind=search
//@harness s_bad kind=search

// RFC 3629 (and its five and six byte predecessor forms)
static int specEnc(uint32_t c, byte *o) {
	if (c < 0x80) { o[0] = (byte)c; return 1; }
	int n = c < 0x800 ? 2 : c < 0x10000 ? 3 : c < 0x200000 ? 4 : c < 0x4000000 ? 5 : 6;
	for (int i = n - 1; i > 0; i--) { o[i] = (byte)(0x80 | (c & 0x3F)); c >>= 6; }
	static const byte lead[] = {0, 0, 0xC0, 0xE0, 0xF0, 0xF8, 0xFC};
	o[0] = (byte)(lead[n] | c);
	return n;
}
static uint32_t anyChar() { uint32_t c = vp_u32(); vp_assume(c < 0x80000000u); return c; }

VP_HARNESS(enc_conv) {
	WideToUtf8Convert *e = new (vp_alloc(sizeof(WideToUtf8Convert))) WideToUtf8Convert();
	vp_cycle_begin(e, sizeof(*e), "e");
	VP_ENSURES(e->needItems);
	VP_ENSURES(!e->hasItems);
	uint32_t c = anyChar(); byte x[8]; int n = specEnc(c, x);
	e->write((wchar_t)c);
	for (int i = 0; i < n; i++) {
		vp_assert(e->hasItems && !e->needItems, "encoder holds the rest of the character");
		vp_assert((byte)e->peek() == x[i], "peek shows the next byte");
		vp_assert((byte)e->getNext() == x[i], "byte of the shortest form");
	}
	vp_assert(!e->hasItems && e->needItems, "nothing after the character");
	vp_cover(n == 4 ? "four" : n == 1 ? "one" : "other");
	vp_cycle_end(e, sizeof(*e), "e");
}
VP_HARNESS(dec_conv) {
	Utf8ToWideConvert *d = new (vp_alloc(sizeof(Utf8ToWideConvert))) Utf8ToWideConvert();
	vp_cycle_begin(d, sizeof(*d), "d");
	VP_ENSURES(d->needItems);
	VP_ENSURES(!d->hasItems);
	uint32_t c = anyChar(); byte x[8]; int n = specEnc(c, x);
	for (int i = 0; i < n; i++) {
		vp_assert(!d->hasItems && d->needItems, "decoder waits for the whole character");
		d->write((char)x[i]);
	}
	vp_assert(d->hasItems && !d->needItems, "character is available");
	vp_assert((uint32_t)d->peek() == c, "peek shows the character");
	vp_assert((uint32_t)d->getNext() == c, "decoded character equals the encoded one");
	vp_assert(!d->hasItems && d->needItems, "one character only");
	vp_cycle_end(d, sizeof(*d), "d");
}
VP_HARNESS(enc_filter) {
	WideToUtf8Filter *e = new (vp_alloc(sizeof(WideToUtf8Filter))) WideToUtf8Filter();
	vp_cycle_begin(e, sizeof(*e), "e");
	VP_ENSURES(e->needItems());
	VP_ENSURES(!e->hasItems());
	uint32_t c = anyChar(); byte x[8]; int n = specEnc(c, x);
	e->input((wchar_t)c);
	for (int i = 0; i < n; i++) {
		vp_assert(e->hasItems() && !e->needItems(), "encoder holds the rest of the character");
		vp_assert((byte)e->output() == x[i], "byte of the shortest form");
	}
	vp_assert(!e->hasItems() && e->needItems(), "nothing after the character");
	vp_cycle_end(e, sizeof(*e), "e");
}
VP_HARNESS(dec_filter) {
	Utf8ToWideFilter *d = new (vp_alloc(sizeof(Utf8ToWideFilter))) Utf8ToWideFilter();
	vp_cycle_begin(d, sizeof(*d), "d");
	VP_ENSURES(d->needItems());
	VP_ENSURES(!d->hasItems());
	uint32_t c = anyChar(); byte x[8]; int n = specEnc(c, x);
	for (int i = 0; i < n; i++) {
		vp_assert(!d->hasItems() && d->needItems() && d->canAccept((char)x[i]), "decoder waits for the whole character");
		d->input((char)x[i]);
	}
	vp_assert(d->hasItems() && !d->needItems(), "character is available");
	vp_assert((uint32_t)d->output() == c, "decoded character equals the encoded one");
	vp_assert(!d->hasItems() && d->needItems(), "one character only");
	d->flush();
	vp_cycle_end(d, sizeof(*d), "d");
}
// a malformed sequence is reported, wherever it occurs
template<class D> static bool feed(D &d, byte x);
template<> bool feed(Utf8ToWideConvert &d, byte x) { try { d.write((char)x); return true; } catch (...) { return false; } }
template<> bool feed(Utf8ToWideFilter &d, byte x) { try { d.input((char)x); return true; } catch (...) { return false; } }
template<class D> static void bad(D &d) {
	uint32_t c = anyChar(); byte x[8]; int n = specEnc(c, x);
	int k = vp_choice(6);
	vp_assume(k < n);
	for (int i = 0; i < k; i++) vp_assert(feed(d, x[i]), "well formed prefix is accepted");
	byte y = vp_u8();
	if (k == 0) vp_assume(y >= 0x80 && y < 0xC0); else vp_assume(y < 0x80 || y >= 0xC0);
	vp_assert(!feed(d, y), "malformed sequence is reported");
	vp_cover("malformed");
}
VP_HARNESS(dec_conv_bad) {
	Utf8ToWideConvert *d = new (vp_alloc(sizeof(Utf8ToWideConvert))) Utf8ToWideConvert();
	vp_cycle_begin(d, sizeof(*d), "d");
	if (vp_choice(2)) { bad(*d); return; }
	uint32_t c = anyChar(); byte x[8]; int n = specEnc(c, x);
	for (int i = 0; i < n; i++) d->write((char)x[i]);
	d->getNext();
	vp_cycle_end(d, sizeof(*d), "d");
}
VP_HARNESS(dec_filter_bad) {
	Utf8ToWideFilter *d = new (vp_alloc(sizeof(Utf8ToWideFilter))) Utf8ToWideFilter();
	vp_cycle_begin(d, sizeof(*d), "d");
	if (vp_choice(2)) { bad(*d); return; }
	uint32_t c = anyChar(); byte x[8]; int n = specEnc(c, x);
	for (int i = 0; i < n; i++) d->input((char)x[i]);
	d->output();
	vp_cycle_end(d, sizeof(*d), "d");
}
// through the iterator adapters used by the string classes
struct Sink : public WriteIteratorBase<char, Sink> {
	byte *b; int n, lim;
	Sink(byte *b, int lim) : b(b), n(0), lim(lim) {}
	bool hasItems() const { return true; }
	void write(const char &c) { vp_assert(n < lim, "no more bytes than the text has"); b[n++] = (byte)c; }
	void flush() {}
};
struct WSink : public WriteIteratorBase<wchar_t, WSink> {
	wchar_t *b; int n, lim;
	WSink(wchar_t *b, int lim) : b(b), n(0), lim(lim) {}
	bool hasItems() const { return true; }
	void write(const wchar_t &c) { vp_assert(n < lim, "no more characters than the text has"); b[n++] = c; }
	void flush() {}
};
static int text(int m, uint32_t *c, byte *x) {
	int n = 0;
	for (int i = 0; i < m; i++) { c[i] = vp_u32(); vp_assume(c[i] <= 0x10FFFF); n += specEnc(c[i], x + n); }
	return n;
}
VP_HARNESS(str_write) {
	uint32_t c[2]; byte x[16], y[16]; int m = vp_choice(3); int n = text(m, c, x);
	Sink s(y, n);
	{ WideToUtf8Writer<Sink &> w(s); for (int i = 0; i < m; i++) w.write((wchar_t)c[i]); }
	vp_assert(s.n == n, "number of bytes");
	for (int i = 0; i < n; i++) vp_assert(y[i] == x[i], "bytes of the text");
	wchar_t z[4]; WSink t(z, m);
	{ Utf8ToWideWriter<WSink &> w(t); for (int i = 0; i < n; i++) w.write((char)x[i]); }
	vp_assert(t.n == m, "number of characters");
	for (int i = 0; i < m; i++) vp_assert((uint32_t)z[i] == c[i], "characters of the text");
}
VP_HARNESS(str_read) {
	uint32_t c[2]; byte x[16]; wchar_t z[2]; int m = vp_choice(3); int n = text(m, c, x);
	for (int i = 0; i < m; i++) z[i] = (wchar_t)c[i];
	ConstStrW src(z, m); WideToUtf8Reader<ConstStrW::Iterator> r(src.getFwIter());
	for (int i = 0; i < n; i++) { vp_assert(r.hasItems(), "reader has the rest of the text"); vp_assert((byte)r.getNext() == x[i], "bytes of the text"); }
	vp_assert(!r.hasItems(), "nothing after the text");
	ConstStrA u((char *)x, n); Utf8ToWideReader<ConstStrA::Iterator> q(u.getFwIter());
	for (int i = 0; i < m; i++) { vp_assert(q.hasItems(), "reader has the rest of the text"); vp_assert((uint32_t)q.getNext() == c[i], "characters of the text"); }
	vp_assert(!q.hasItems(), "nothing after the text");
}
VP_HARNESS(s_text) {
	WideToUtf8Convert e; Utf8ToWideConvert d; WideToUtf8Filter ef; Utf8ToWideFilter df;
	int m = vp_choice(6);
	for (int k = 0; k < m; k++) {
		uint32_t c = vp_bool() ? (uint32_t)vp_range(0, 0x10FFFF) : anyChar(); byte x[8]; int n = specEnc(c, x);
		e.write((wchar_t)c); ef.input((wchar_t)c);
		for (int i = 0; i < n; i++) {
			vp_assert(e.hasItems && (byte)e.peek() == x[i] && (byte)e.getNext() == x[i], "encoder byte");
			vp_assert(ef.hasItems() && (byte)ef.output() == x[i], "filter byte");
			vp_assert(d.needItems && df.needItems(), "decoder needs the byte");
			d.write((char)x[i]); df.input((char)x[i]);
		}
		vp_assert(!e.hasItems && !ef.hasItems() && e.needItems && ef.needItems(), "no further byte");
		vp_assert(d.hasItems && (uint32_t)d.peek() == c && (uint32_t)d.getNext() == c, "decoded");
		vp_assert(df.hasItems() && (uint32_t)df.output() == c, "decoded by the filter");
	}
}
VP_HARNESS(s_bad) {
	if (vp_choice(2)) { Utf8ToWideConvert d; bad(d); } else { Utf8ToWideFilter d; bad(d); }
}
