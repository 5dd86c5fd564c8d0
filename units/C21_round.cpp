// C21: floor, ceil, remainder, power, and the binary gcd
#include "vp.h"
#include <exception>
#include <math.h>
#define protected public
#include "lightspeed/base/types.h"
#include "lightspeed/base/rational.h"
#undef protected
using namespace LightSpeed;
static natural mag(integer n) { return n < 0 ? 0 - (natural)n : (natural)n; }
//@function rational::floor, ceil, powerNumber, gcd
//@harness c21_floor ufmul=1 divmod=1
VP_HARNESS(c21_floor) {
	integer n = (integer)vp_u64(); natural d = vp_range(1, ~(uint64_t)0); rational a(n, d); natural m = mag(n);
	integer f = a.floor();
	if (n >= 0) { natural t = (natural)f, p = t * d; vp_assert(f >= 0 && p <= m && m - p < d && t <= m, "the largest integer not above a positive number"); vp_cover("positive"); }
	else { natural t = (natural)(-1 - f), p = t * d; vp_assert(f < 0 && p < m && m - p <= d && t <= m, "the largest integer not above a negative number"); vp_cover("negative"); }
}
//@harness c21_ceil ufmul=1 divmod=1
VP_HARNESS(c21_ceil) {
	integer n = (integer)vp_u64(); natural d = vp_range(1, ~(uint64_t)0); rational a(n, d); natural m = mag(n);
	integer c = a.ceil();
	if (n > 0) { natural t = (natural)(c - 1), p = t * d; vp_assert(c > 0 && p < m && m - p <= d && t <= m, "the smallest integer not below a positive number"); vp_cover("positive"); }
	else { natural t = 0 - (natural)c, p = t * d; vp_assert(c <= 0 && p <= m && m - p < d && t <= m, "the smallest integer not below a negative number"); vp_cover("negative"); }
}
//@harness c21_gcd kind=bounded max_visits=400
//  operands below 32: the greatest common divisor, by its definition
VP_HARNESS(c21_gcd) {
	uint64_t u = vp_choice(32), v = vp_choice(32); natural g = rational::gcd(u, v);
	if (u == 0 || v == 0) { vp_assert(g == u + v, "of zero"); return; }
	natural k; for (k = u; u % k || v % k; k--) {}
	vp_assert(g == k, "the greatest common divisor"); vp_cover("gcd");
}
//@harness c21_small kind=bounded max_visits=400
//  numerators from -6 to 6, denominators 1 to 4, exponents -2 to 4: every operation, with the real gcd
VP_HARNESS(c21_small) {
	integer n = (integer)vp_choice(13) - 6, k = (integer)vp_choice(13) - 6; natural d = 1 + vp_choice(4), e = 1 + vp_choice(4);
	rational a(n, d, rational::normalize), b(k, e, rational::normalize); integer D = d, E = e;
	vp_assert(a.n * D == n * (integer)a.d && a.d > 0, "normalized to the same number");
	rational s = a + b; vp_assert(s.n * D * E == (n * E + k * D) * (integer)s.d, "sum"); s = a - b; vp_assert(s.n * D * E == (n * E - k * D) * (integer)s.d, "difference");
	s = a * b; vp_assert(s.n * D * E == n * k * (integer)s.d, "product"); vp_assert(s.d != 0 && rational::gcd(mag(s.n), s.d) == 1, "reduced");
	vp_assert((a < b) == (n * E < k * D) && (a == b) == (n * E == k * D), "compared");
	integer f = a.floor(), c = a.ceil(), r = a.round();
	vp_assert(f * D <= n && (f + 1) * D > n, "floor"); vp_assert(c * D >= n && (c - 1) * D < n, "ceil"); vp_assert(2 * r * D <= 2 * n + D && 2 * (r + 1) * D > 2 * n + D, "round");
	if (k) {
		s = a / b; vp_assert(s.n * D * k == n * E * (integer)s.d, "quotient");
		integer t = n * E / (D * k); rational q = a % b;    // the quotient is rounded towards zero
		vp_assert(q.n * D * E == (n * E - t * k * D) * (integer)q.d, "remainder"); vp_cover("divided");
		for (integer x = -2; x <= 4; x++) { rational p = b.power(x); integer pn = 1, pd = 1; for (integer i = 0; i < (x < 0 ? -x : x); i++) { pn *= x < 0 ? E : k; pd *= x < 0 ? k : E; } vp_assert(p.n * pd == pn * (integer)p.d && p.d > 0, "power"); }
	}
}
