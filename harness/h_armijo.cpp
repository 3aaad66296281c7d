// Line searches and gradient descent on an arbitrary function: value() returns
// a fresh unknown at every new point.
#include "mstep_common.hpp"
#include "ldaplusplus/optimization/GradientDescent.hpp"
using namespace ldaplusplus::optimization;
struct Problem {
    mutable std::vector<MX> pts; mutable std::vector<S> vals;
    mutable int grads = 0;
    mutable std::vector<MX> gpts, gvals;
    S value(const MX &x) const {
        S v = (S)vp_real("f", -4, 4);
        pts.push_back(x); vals.push_back(v);
        return v;
    }
    void gradient(const MX &x, Eigen::Ref<MX> g) const {
        grads++;
        MX r = vp::mat<S>("g", x.rows(), x.cols(), -2, 2);
        g = r;
        gpts.push_back(x); gvals.push_back(r);
    }
};
static void same(const MX &a, const MX &b, const char *l) {
    vp_assert(a.rows() == b.rows() && a.cols() == b.cols(), l);
    for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) vp_assert_eq(a(i, j), b(i, j), TOL, l);
}
extern "C" void vp_main() {
    const int K = vp_concrete(K_), C = vp_concrete(NC_);
    MX x = vp::mat<S>("x", K, C, -2, 2), x0 = x;
#if MODE_ == 0
    // Armijo: the largest tau^n that satisfies the sufficient decrease
    Problem f;
    MX g = vp::mat<S>("gr", K, C, -2, 2), d = vp::mat<S>("dir", K, C, -2, 2);
#ifdef KNOWN_
    d = g / 2;
#endif
    S beta = (S)vp::real("beta", 0.0009765625, 0.5), tau = (S)vp::real("tau", 0.125, 0.875);
    S slope = 0;
    for (int k = 0; k < K; k++) for (int c = 0; c < C; c++) slope += g(k, c) * d(k, c);
    vp_assume(slope > 0.03125);                 // a descent direction, as the documentation requires
    S vstart = 0;
    ArmijoLineSearch<Problem, MX> ls(beta, tau);
    S r = ls.search(f, x, g, d);
    // the values the function took, in order: f(x0), f(x0 - d), f(x0 - tau d), ...
    int n = f.pts.size();
    vp_assert(n >= 2, "Armijo evaluates at least the start and one step");
    same(f.pts[0], x0, "Armijo starts from the value at x0");
    S a = 1;
    for (int i = 1; i < n; i++) {
        same(f.pts[i], x0 - a * d, "Armijo tries the steps 1, tau, tau^2, ...");
        if (i + 1 < n) vp_assert_lt(f.vals[0] - a * beta * slope, f.vals[i], TOL, "Armijo rejects only insufficient decrease");
        else {
            vp_assert_le(f.vals[i], f.vals[0] - a * beta * slope, TOL, "Armijo accepts only sufficient decrease");
            same(x, x0 - a * d, "Armijo moves to the accepted point");
            vp_assert_eq(r, f.vals[i], TOL, "Armijo returns the value at the accepted point");
            vp_assert_lt(r, f.vals[0], TOL, "Armijo strictly decreases the objective");
        }
        a *= tau;
    }
#elif MODE_ == 1
    Problem f;
    MX d = vp::mat<S>("dir", K, C, -2, 2);
    S al = (S)vp_real("al", -2, 2);
    ConstantLineSearch<Problem, MX> ls(al);
    S r = ls.search(f, x, d, d);
    same(x, x0 - al * d, "constant step");
    same(f.pts.back(), x, "constant step evaluates the new point");
    vp_assert_eq(r, f.vals.back(), TOL, "constant step returns the value at the new point");
#else
    // gradient descent drives any line search
    struct LS : LineSearch<Problem, MX> {
        std::vector<MX> at, gr, dir; std::vector<S> ret; std::vector<MX> to;
        S search(const Problem &p, Eigen::Ref<MX> x, const MX &g, const MX &d) override {
            at.push_back(x); gr.push_back(g); dir.push_back(d);
            x -= (S)vp_real("step", 0, 1) * d;
            to.push_back(x);
            ret.push_back(p.value(x));
            return ret.back();
        }
    };
    Problem f;
    auto ls = std::make_shared<LS>();
    const int stop = vp_choice("stop", vp::Known ? 13 : 4);
    std::vector<S> seen, norms; std::vector<size_t> its;
    GradientDescent<Problem, MX> gd(ls, [&](S v, S gn, size_t it) { seen.push_back(v); norms.push_back(gn); its.push_back(it); return (int)seen.size() <= stop; });
    gd.minimize(f, x);
    vp_assert((int)seen.size() == stop + 1 && (int)ls->at.size() == stop, "gradient descent stops exactly when told");
    same(f.pts[0], x0, "gradient descent starts from x0");
    vp_assert_eq(seen[0], f.vals[0], TOL, "progress is told the current value");
    vp_assert_eq(norms[0], 0, TOL, "gradient norm before the first step");
    MX cur = x0;
    for (int i = 0; i < stop; i++) {
        vp_assert(its[i] == (size_t)i, "iterations are counted");
        same(f.gpts[i], cur, "gradient evaluated at the current point");
        same(ls->at[i], cur, "search from the current point");
        same(ls->gr[i], f.gvals[i], "search is given the gradient");
        same(ls->dir[i], f.gvals[i], "search is along the gradient");
        vp_assert_eq(seen[i + 1], ls->ret[i], TOL, "progress is told the current value");
        S mx = 0;
        for (int k = 0; k < K; k++) for (int c = 0; c < C; c++) { S t = std::abs(f.gvals[i](k, c)); if (t > mx) mx = t; }
        vp_assert_eq(norms[i + 1], mx, TOL, "progress is told the gradient norm");
        cur = ls->to[i];
    }
    same(x, cur, "the result is the last point");
    vp_assert(f.grads == stop, "one gradient per iteration");
#endif
}
