// C04: integers print and parse exactly in every base
#include "vp.h"
#include "lightspeed/base/text/toString.tcc"
#include "lightspeed/base/text/textParser.tcc"
using namespace LightSpeed;
//@assume the digit buffer (AutoArrayStream) appends one element per write; its own contract is property C12
//@function ToStringUnsigned<natural>::extract/extractFirst, ToStringSigned<integer>::extract/extractFirst
//@function parseUnsignedNumber, parseSignedNumber

typedef unsigned long long u64;
//-------------------------------------------------------------- printing
// ghost model of the text written so far
static u64 g_base, g_acc, g_cnt, g_first;   // value, digits, first digit
static bool g_neg, g_up, g_started, g_end;
//@replace ^LightSpeed::AutoArrayT?<.*>::WriteIter::write\( => ghost_write
extern "C" void ghost_write(void *, const char &cc) {
	unsigned char c = cc;
	if (c == 0) { g_end = true; return; }
	vp_assert(!g_end, "nothing follows the terminator");
	if (c == '-') { vp_assert(!g_started && !g_neg, "a sign only in front"); g_neg = true; return; }
	u64 d;
	if (c <= '9') { vp_assert(c >= '0', "only digits of the base follow an optional sign"); d = c - '0'; }
	else { vp_assert(vp_and(c >= (g_up ? 'A' : 'a'), c <= (g_up ? 'Z' : 'z')), "only digits of the base follow an optional sign"); d = c - (g_up ? 'A' : 'a') + 10; }
	vp_assert(d < g_base, "the digit is below the base");
	unsigned long long p, q;
	bool o1 = __builtin_umulll_overflow(g_acc, g_base, &p);
	vp_assert(!o1, "the value is exact (no wrap in multiplication)");
	bool o2 = __builtin_uaddll_overflow(p, d, &q);
	vp_assert(!o2, "the value is exact (no wrap in addition)");
	g_acc = q;
	g_first = vp_ite64(g_cnt == 0, d, g_first);
	g_cnt++;
	g_started = true;
}
//@replace ^LightSpeed::AutoArrayStream<.*>::length\(\) const => ghost_length
extern "C" u64 ghost_length(const void *) { return g_cnt + (g_neg ? 1 : 0); }
//@replace ^LightSpeed::AutoArrayStream<.*>::data\(\) const => ghost_data
extern "C" const char *ghost_data(const void *) { return (const char *)&g_base; }

// contract of extract: the appended digits are exactly the digits of val, no leading zero
//@recursive ^LightSpeed::ToStringUnsigned<.*>::extract\( => extract_contract
extern "C" void extract_contract(void *, u64 val, u64 base, bool up) {
	vp_assert(vp_and(base == g_base, up == g_up), "recursive call in the same base");
	vp_assert(val != 0, "a positive number is expanded");
	vp_assert(g_cnt == 0, "higher digits come first");
	g_cnt = vp_range(1, 64); g_acc = val; g_first = vp_range(1, 35); g_started = true;
}
//@recursive ^LightSpeed::ToStringSigned<.*>::extract\( => extract_contract_s
extern "C" void extract_contract_s(void *t, long long val, u64 base, bool up) { vp_assert(val > 0, "a positive number is expanded"); extract_contract(t, val, base, up); }

static void ghost_init(u64 lo = 2, u64 hi = 36) {
	g_base = vp_concrete(vp_range(lo, hi)); g_acc = g_cnt = g_first = 0; g_neg = g_started = g_end = false; g_up = vp_choice(2);
}
static void canonical(u64 mag, bool neg) {
	vp_assert(g_cnt >= 1, "at least one digit");
	vp_assert(g_acc == mag, "the digits denote the magnitude");
	vp_assert(g_neg == neg, "a sign exactly for negative values");
	vp_assert(vp_implies(g_first == 0, vp_and(mag == 0, g_cnt == 1)), "no leading zero");
}
//@harness c04_print_unsigned kind=inductive cost=20 divmod=1
VP_HARNESS(c04_print_unsigned) {
	ghost_init();
	u64 v = vp_u64();
	ToString<natural> t(v, g_base, g_up);
	canonical(v, false);
	vp_assert(t.length() == g_cnt, "length is the number of characters");
}
static void print_signed(u64 lo, u64 hi, bool neg) {
	ghost_init(lo, hi);
	long long v = (long long)vp_u64();
	vp_assume((v < 0) == neg);
	ToString<integer> t(v, g_base, g_up);
	canonical(v < 0 ? 0 - (u64)v : (u64)v, v < 0);
	vp_assert(t.length() == g_cnt + (v < 0), "length is the number of characters");
}
//@harness c04_print_signed kind=inductive cost=20 divmod=1 quick_ms=400
VP_HARNESS(c04_print_signed) { print_signed(2, 36, false); }
//@harness c04_print_neg1 kind=inductive cost=30 divmod=1 quick_ms=400
VP_HARNESS(c04_print_neg1) { print_signed(2, 9, true); }
//@harness c04_print_neg2 kind=inductive cost=30 divmod=1 quick_ms=400
VP_HARNESS(c04_print_neg2) { print_signed(10, 18, true); }
//@harness c04_print_neg3 kind=inductive cost=30 divmod=1 quick_ms=400
VP_HARNESS(c04_print_neg3) { print_signed(19, 27, true); }
//@harness c04_print_neg4 kind=inductive cost=30 divmod=1 quick_ms=400
VP_HARNESS(c04_print_neg4) { print_signed(28, 36, true); }
//-------------------------------------------------------------- parsing
// text: n digits in any mixture of cases, then the end or a character that is no digit of the base
static u64 g_n; static unsigned char *g_d; static bool *g_case; static char g_stop; static bool g_hasstop;
struct DigitIter {
	u64 pos;
	bool hasItems() const { return pos < g_n || g_hasstop; }
	char peek() const {
		vp_assert(hasItems(), "peek only where there is an item");
		if (pos >= g_n) return g_stop;
		u64 d = g_d[pos];
		vp_assume(d < g_base);
		return (char)vp_ite64(d < 10, '0' + d, vp_ite64(g_case[pos], 'A' + d - 10, 'a' + d - 10));
	}
	void skip() { vp_assert(pos < g_n, "only digits are consumed"); pos++; }
};
// the same with an optional sign in front (mode 0 none, 1 plus, 2 minus)
struct SignIter: DigitIter {
	int mode; bool signRead;
	bool hasItems() const { return !signRead || DigitIter::hasItems(); }
	char peek() const { if (!signRead) return mode == 1 ? '+' : '-'; return DigitIter::peek(); }
	void skip() { if (!signRead) signRead = true; else DigitIter::skip(); }
};
static u64 H(u64 i) { return vp_fun(1, i, 0); }
//@loop parseUnsignedNumber => parse_inv
extern "C" void parse_inv(u64 k) {
	vp_assume(H(0) == 0);
	vp_assume(vp_implies(k < g_n, H(k + 1) == H(k) * g_base + g_d[vp_ite64(k < g_n, k, 0)]));
	vp_assume(vp_implies(vp_and(k >= 1, k <= g_n), H(k) == H(k - 1) * g_base + g_d[vp_ite64(vp_and(k >= 1, k <= g_n), k - 1, 0)]));
	vp_cand(H(k));
	vp_cand(k > 0);
}
static void text_init() {
	g_base = vp_range(2, 36);
	g_n = vp_u64(); vp_assume(g_n < ((u64)1 << 60)); g_d = (unsigned char *)vp_array(1, g_n + 1); g_case = (bool *)vp_array(1, g_n + 1);
	g_hasstop = vp_choice(2);
	g_stop = (char)vp_u8();
	unsigned char c = g_stop;
	u64 v = vp_ite64(vp_and(c >= '0', c <= '9'), c - '0', vp_ite64(vp_and(c >= 'A', c <= 'Z'), c - 'A' + 10, vp_ite64(vp_and(c >= 'a', c <= 'z'), c - 'a' + 10, 99)));
	vp_assume(v >= g_base);
}
//@harness c04_parse_unsigned kind=inductive ufmul=1
VP_HARNESS(c04_parse_unsigned) {
	text_init();
	DigitIter it; it.pos = 0; natural num = vp_u64();
	bool r = parseUnsignedNumber(it, num, g_base);
	vp_assert(it.pos == g_n, "every digit is consumed and nothing else");
	vp_assert(r == (g_n > 0), "text without a digit is reported");
	vp_assert(num == H(g_n), "value of the digits");
	if (r) vp_cover("some"); else vp_cover("none");
}
//@harness c04_parse_signed kind=inductive ufmul=1
VP_HARNESS(c04_parse_signed) {
	text_init();
	SignIter it; it.pos = 0; it.mode = vp_choice(3); it.signRead = it.mode == 0; natural num = vp_u64();
	vp_assume(vp_or(g_n > 0, vp_or(it.mode != 0, vp_and(g_stop != '+', g_stop != '-'))));
	bool r = parseSignedNumber(it, num, g_base);
	vp_assert(it.pos == g_n, "every digit is consumed and nothing else");
	vp_assert(r == (g_n > 0), "text without a digit is reported");
	if (r) vp_assert(num == (it.mode == 2 ? 0 - H(g_n) : H(g_n)), "value of the digits with its sign");
	if (r) vp_cover("some"); else vp_cover("none");
}
//-------------------------------------------------------------- the same through the public interface, with the real buffer
template<typename T> static void roundtrip(T v, natural base, bool up) {
	ToString<T> t(v, base, up);
	u64 acc = 0; natural i = 0; bool neg = false;
	natural len = t.length();
	vp_assert(len >= 1, "text is not empty");
	if (t[0] == '-') { neg = true; i = 1; }
	vp_assert(neg == (v < 0), "a sign exactly for negative values");
	vp_assert(len > i, "at least one digit");
	vp_assert(t[i] != '0' || v == 0, "no leading zero");
	for (; i < len; i++) {
		unsigned char c = t[i];
		u64 d = c >= '0' && c <= '9' ? c - '0' : c >= (up ? 'A' : 'a') && c <= (up ? 'Z' : 'z') ? c - (up ? 'A' : 'a') + 10 : 99;
		vp_assert(d < base, "only digits of the base follow an optional sign");
		acc = acc * base + d;
	}
	vp_assert(acc == (neg ? 0 - (u64)v : (u64)v), "the digits denote the magnitude");
	T back = 1;
	vp_assert(parseSignedNumber(t.getFwIter(), back, base) && back == v, "parsing returns the printed value");
}
//@harness c04_search kind=search
VP_HARNESS(c04_search) {
	natural base = vp_range(2, 36); bool up = vp_choice(2);
	u64 v = vp_u64();
	if (vp_choice(2)) roundtrip<integer>((integer)v, base, up);
	else roundtrip<natural>(v, base, up);
}
