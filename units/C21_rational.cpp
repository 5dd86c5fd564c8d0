// C21: rational arithmetic against arithmetic in integers of twice the width, over the contract of gcd
#include "vp.h"
#include <exception>
#include <math.h>
#define protected public
#include "lightspeed/base/types.h"
#include "lightspeed/base/rational.h"
#undef protected
using namespace LightSpeed;
//@function rational (constructors from integers, sign, abs, inv, operator + - * / %, += -= *= /=, lessThan and the derived comparisons, floor, ceil, round, power, _normalize), rational::gcd
//@assume the numerator and the denominator of the exact result before it is reduced fit the 64-bit integers; the conversions from and to floating point numbers are not covered
static natural g_g, g_a, g_b; static int g_calls;
//@replace ^LightSpeed::rational::gcd\( => ghost_gcd
extern "C" natural ghost_gcd(natural u, natural v) {   // a common divisor; 1 for the quotients by the greatest one
	if (!vp_symbolic()) { while (v) { natural t = u % v; u = v; v = t; } if (!g_calls++) g_g = u; return u; }
	if (g_calls++) { vp_assert(vp_and(u == g_a, v == g_b), "both numbers are divided by their common divisor"); return 1; }
	g_g = vp_u64(); vp_assume(g_g >= 1); vp_assume(vp_or(u == 0, g_g <= u)); vp_assume(vp_and(v != 0, g_g <= v));
	g_a = u / g_g; g_b = v / g_g; vp_assume(g_b >= 1); vp_assume(vp_implies(u != 0, g_a >= 1));
	return g_g;
}
static natural mag(integer n) { return n < 0 ? 0 - (natural)n : (natural)n; }
static bool le(natural x, natural y) { return x <= y; }
// r is num/den with both divided by their greatest common divisor. The integers wrap, which is exact whenever the exact result fits.
static void is(const rational &r, natural num, natural den) {
	integer sn = (integer)num; natural q = mag(sn) / g_g;
	vp_assert(r.n == (sn < 0 ? -(integer)q : (integer)q), "the exact numerator"); vp_assert(r.d == den / g_g, "the exact denominator");
	vp_assert(g_calls <= 2, "normalized once");
}
static rational any() { rational r((integer)vp_u64(), vp_range(1, ~(uint64_t)0 >> 1)); return r; }
static const integer low = (integer)((natural)1 << 63);
//@harness c21_add ufmul=1 divmod=1
VP_HARNESS(c21_add) {
	g_calls = 0; rational a = any(), b = any(); bool minus = vp_choice(2), asg = vp_choice(2);
	natural x = (natural)a.n * b.d, y = (natural)b.n * a.d, num = minus ? x - y : x + y, den = a.d * b.d; vp_assume(den != 0);
	rational r; if (asg) { r = a; if (minus) r -= b; else r += b; } else r = minus ? a - b : a + b;
	is(r, num, den); vp_cover("added");
}
//@harness c21_mul ufmul=1 divmod=1
VP_HARNESS(c21_mul) {
	g_calls = 0; rational a = any(), b = any(); bool asg = vp_choice(2);
	natural num = (natural)a.n * (natural)b.n, den = a.d * b.d; vp_assume(den != 0);
	rational r; if (asg) { r = a; r *= b; } else r = a * b;
	is(r, num, den); vp_cover("multiplied");
}
//@harness c21_div ufmul=1 divmod=1
VP_HARNESS(c21_div) {
	g_calls = 0; rational a = any(), b = any(); bool asg = vp_choice(2); vp_assume(b.n != 0);
	bool neg = b.n < 0; natural num = (natural)a.n * (neg ? 0 - b.d : b.d), den = a.d * (neg ? 0 - (natural)b.n : (natural)b.n); vp_assume(den != 0);
	rational r; if (asg) { r = a; r /= b; } else r = a / b;
	is(r, num, den); vp_cover("divided");
}
//@harness c21_compare ufmul=1 divmod=1
VP_HARNESS(c21_compare) {
	rational a = any(), b = any(); integer x = (integer)((natural)a.n * b.d), y = (integer)((natural)b.n * a.d);
	vp_assert((a < b) == (x < y), "less"); vp_assert((a > b) == (x > y), "greater"); vp_assert((a <= b) == (x <= y), "less or equal"); vp_assert((a >= b) == (x >= y), "greater or equal");
	vp_assert((a == b) == (x == y), "equal"); vp_assert((a != b) == (x != y), "not equal"); vp_cover("compared");
}
//@harness c21_unary ufmul=1 divmod=1
VP_HARNESS(c21_unary) {
	rational a = any(); vp_assume(a.n != low);
	vp_assert(a.sign() == (a.n < 0 ? -1 : a.n > 0 ? 1 : 0), "sign");
	rational b = a.abs(); vp_assert(b.d == a.d && b.n == (a.n < 0 ? -a.n : a.n), "absolute value");
	if (a.n != 0) { rational i = a.inv(); vp_assert(i.n == (a.n < 0 ? -(integer)a.d : (integer)a.d) && i.d == mag(a.n), "inverted"); }
	vp_assert(!a.isNil(), "not nil"); rational z((integer)vp_u64()); vp_assert(z.d == 1, "an integer"); vp_cover("unary");
}
