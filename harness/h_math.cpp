// Normalisation, scaled sums, reshaping, products on arbitrary matrices.
#include "vp.hpp"
#include <cmath>
#include <limits>
#include "ldaplusplus/utils.hpp"
using namespace ldaplusplus;
#ifndef SCALAR
#define SCALAR double
#endif
#ifndef SCALE_
#define SCALE_ 0
#endif
#ifndef R_
#define R_ 2
#endif
#ifndef NC_
#define NC_ 3
#endif
typedef SCALAR S;
typedef vp::Vec<S> VX;
typedef vp::Mat<S> MX;
static const double TOL = sizeof(S) == 4 ? 1e-3 : 1e-7;
extern "C" void vp_main() {
    const int r = vp_concrete(R_), c = vp_concrete(NC_);
#if MODE_ == 0 || MODE_ == 1
    // normalisation; entries of either sign, a line may be zero
    // at scale 2^-SCALE_: lines with a tiny or huge sum are normalised as well
    const double sc = SCALE_ < 0 ? (double)(1LL << (SCALE_ < 0 ? -SCALE_ : 0)) : 1.0 / (double)(1LL << (SCALE_ < 0 ? 0 : SCALE_));
    MX x = vp::mat<S>("x", r, c, SGN_ ? -2 : 0, 2) * (S)sc;
    const int n = MODE_ ? r : c, m = MODE_ ? c : r;
    auto at = [&](const MX &q, int line, int i) { return MODE_ ? q(line, i) : q(i, line); };
    for (int l = 0; l < n; l++) { S s = 0; for (int i = 0; i < m; i++) s += at(x, l, i); vp_assume(s == 0 || s > 0.0625 * sc || s < -0.0625 * sc); }
    MX y = x;
    if (MODE_) math_utils::normalize_rows(y); else math_utils::normalize_cols(y);
    vp_assert(y.rows() == r && y.cols() == c, "shape kept");
    for (int l = 0; l < n; l++) {
        S s = 0, t = 0;
        for (int i = 0; i < m; i++) { s += at(x, l, i); t += at(y, l, i); }
        if (s == 0) for (int i = 0; i < m; i++) vp_assert_eq(at(y, l, i), at(x, l, i), 0, "a zero-sum line is untouched");
        else {
            vp_assert_eq(t, 1, TOL, "normalised to one");
            for (int i = 0; i < m; i++) vp_assert_eq(at(y, l, i) * s, at(x, l, i), TOL * sc, "proportions kept");
        }
    }
#elif MODE_ == 2
    // scaled column sums: unscaled columns do not matter, even when they are not finite
    MX x = vp::mat<S>("x", r, c, -2, 2);
    VX y = vp::vec<S>("y", c, -2, 2), z = vp::vec<S>("z", r, -2, 2), z0 = z;
    const int bad = vp_choice("bad", c + 1);
    if (bad < c) { y[bad] = 0; x(vp_choice("badrow", r), bad) = vp_choice("inf", 2) ? std::numeric_limits<S>::infinity() : std::numeric_limits<S>::quiet_NaN(); }
    math_utils::sum_cols_scaled(x, y, z);
    for (int i = 0; i < r; i++) {
        S e = z0[i];
        for (int j = 0; j < c; j++) if (j != bad) e += y[j] * x(i, j);
        vp_assert(vp_is_finite(z[i]), "scaled sum finite");
        vp_assert_eq(z[i], e, TOL, "scaled sum of the columns");
    }
#elif MODE_ == 3
    MX x = vp::mat<S>("x", r, c, -2, 2);
    VX y = vp::vec<S>("y", r, -2, 2);
    Eigen::Matrix<S, 1, Eigen::Dynamic> z(c), z0(c);
    for (int j = 0; j < c; j++) z0[j] = z[j] = (S)vp_real("z", -2, 2);
    const int bad = vp_choice("bad", r + 1);
    if (bad < r) { y[bad] = 0; x(bad, vp_choice("badcol", c)) = vp_choice("inf", 2) ? std::numeric_limits<S>::infinity() : std::numeric_limits<S>::quiet_NaN(); }
    math_utils::sum_rows_scaled(x, y, z);
    for (int j = 0; j < c; j++) {
        S e = z0[j];
        for (int i = 0; i < r; i++) if (i != bad) e += y[i] * x(i, j);
        vp_assert(vp_is_finite(z[j]), "scaled sum finite");
        vp_assert_eq(z[j], e, TOL, "scaled sum of the rows");
    }
#else
    MX x = vp::mat<S>("x", r, c, -2, 2), back(r, c);
    VX v(r * c);
    math_utils::reshape_into<S>(x, v);
    vp_assert(v.rows() == r * c, "shape kept");
    for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) vp_assert_eq(v[j * r + i], x(i, j), 0, "reshaping is column-major");
    math_utils::reshape_into<S>(v, back);
    for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) vp_assert_eq(back(i, j), x(i, j), 0, "reshaping back is the identity");
    // product of the non-zeros: put zeros anywhere
    S p = 1;
    for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) if (x(i, j) != 0) p *= x(i, j);
    vp_assert_eq(math_utils::product_of_nonzeros(x), p, TOL, "product of the non-zeros");
    math_utils::CwiseScalarDivideByMatrix<S> dv((S)3);
    S q = x(0, 0);
    if (q == 0) vp_assert_eq(dv(q), 0, 0, "division skips zeros");
    else { vp_assume(q > 0.0625 || q < -0.0625); vp_assert_eq(dv(q) * q, 3, TOL, "division of a scalar by an entry"); }
#endif
}
