// Accuracy of the table based exponential and of the digamma approximation.
#include "vp.hpp"
#include <cmath>
#include <limits>
#include "ldaplusplus/utils.hpp"
#ifndef SCALAR
#define SCALAR double
#endif
typedef SCALAR S;
using ldaplusplus::math_utils::fast_exp;
using ldaplusplus::math_utils::digamma;
static const bool F = sizeof(S) == 4;
#if MODE_ == 0
#include "exp_ref.inc"      // EXP_REF[o][k]: correctly rounded exponentials of the cell boundaries
#endif
extern "C" void vp_main() {
#if MODE_ == 0
    // octave 0: [0,1) in 1024 cells; octave o>0: [2^(o-1), 2^o) in 512 cells.
    // The result must lie between the exponentials of the ends of the cell.
    const int o = OCT_;
    const int n = o ? 512 : 1024, step = vp_concrete(STEP_);
    const int k = vp_choice("cell", n / step) * step + (step > 1 ? vp_concrete(step - 1) * (o % 2) : 0);
    const double w = (double)(1 << o) / 1024, base = o ? (double)(1 << (o - 1)) : 0;
    const double lo = base + k * w, hi = base + (k + 1) * w;
    const double x = vp_real("x", lo, hi);
    vp_assume(x < hi);
    vp_assume(x <= (F ? 80 : 100));
    const double el = EXP_REF[k], eh = EXP_REF[k + 1];
    const double tol = F ? 1e-4 : 1e-9;
    const double y = NEG_ ? fast_exp(static_cast<S>(-x)) : fast_exp(static_cast<S>(x));
    // compared as ratios, so that the tolerance is relative
    const double r0 = NEG_ ? y * el : y / eh, r1 = NEG_ ? y * eh : y / el;     // r0 <= 1 <= r1
    vp_assert_le(r0, 1 + 1e-6, tol, "not above the exponential of the end of the cell");
    vp_assert_le(1 - 1e-6, r1, tol, "not below the exponential of the start of the cell");
    vp_assert(y > 0, "positive");
#elif MODE_ == 1
    // beyond the table, and values that are not numbers
    const double x = vp_real("x", 100.5, F ? 1e3 : 1e3) + 0.037;        // off the grid of the table, where it happens to be exact
    const double y = fast_exp(static_cast<S>(x)), z = fast_exp(static_cast<S>(-x));
    if (vp_symbolic() || x < (F ? 80 : 600)) {
        vp_assert_eq(y / vp_exp(x), 1, 1e-6, "beyond 100 the exponential itself");
        vp_assert_eq(z * vp_exp(x), 1, 1e-6, "beyond -100 the exponential itself");
    }
    const S nan = std::numeric_limits<S>::quiet_NaN(), inf = std::numeric_limits<S>::infinity();
    const S a = fast_exp(nan), b = fast_exp(inf), c = fast_exp(-inf), d = fast_exp(S(0)), e = fast_exp(S(-0.0));
    vp_assert(a != a, "NaN yields NaN");
    vp_assert(b == inf, "infinity yields infinity");
    vp_assert(c == 0, "minus infinity yields zero");
    vp_assert(d == 1 && e == 1, "zero yields one");
#elif MODE_ == 2
    // psi(x+1) = psi(x) + 1/x below the range of the series
    const double x = vp_real("x", 1.0 / 64, LIM_);
    vp_assume(x < LIM_);
    const double a = digamma(static_cast<S>(x)), b = digamma(static_cast<S>(x + 1));
    vp_assert_eq(b - a, 1 / x, F ? 1e-4 : 1e-9, "psi(x+1) = psi(x) + 1/x");
#elif MODE_ == 3
    // the asymptotic series psi(x) = log y + 1/(24 y^2) - 7/(960 y^4) + 31/(8064 y^6) - 127/(30720 y^8) + ..., y = x - 1/2,
    // whose remainder is below 1e-10 from 7 on
    const double x = vp_real("x", 7, 1e6);
    const double a = digamma(static_cast<S>(x));
    const double y = x - 0.5, q = 1 / (y * y);
    const double s = log(y) + q / 24 - 7 * q * q / 960 + 31 * q * q * q / 8064 - 127 * q * q * q * q / 30720;
    vp_assert_le(a - s, 1e-9, F ? 1e-5 : 1e-9, "not above the series");
    vp_assert_le(s - a, 1e-9, F ? 1e-5 : 1e-9, "not below the series");
#endif
}
