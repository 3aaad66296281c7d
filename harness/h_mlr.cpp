// The logistic objectives: value() is the documented loss, gradient() is its
// exact derivative (dual-number reference).
#include "mstep_common.hpp"
#include "ldaplusplus/optimization/MultinomialLogisticRegression.hpp"
#include "ldaplusplus/optimization/SecondOrderLogisticRegressionApproximation.hpp"
using namespace ldaplusplus::optimization;
extern "C" void vp_main() {
    const int K = vp_concrete(K_), C = vp_concrete(NC_), N = vp_concrete(D_);
    MX X = vp::mat<S>("X", K, N, -2, 2), eta = vp::mat<S>("eta", K, C, SECOND_ ? 0 : -2, 2);
    Eigen::VectorXi y(N);
    std::vector<int> yy; std::vector<VX> x; std::vector<MX> var;
    for (int n = 0; n < N; n++) {
        y[n] = vp::choice("y", C); yy.push_back(y[n]); x.push_back(X.col(n));
        // not assumed symmetric; with eta >= 0 the log's argument stays positive
        var.push_back(vp::mat<S>("var", K, K, 0, 0.125));
    }
    S L = (S)vp_real("L", 0, 1);
    std::vector<S> Cy;
    VX w;
#if WEIGHTS_
    w = vp::vec<S>("Cy", C, 0.0625, 4);
    for (int c = 0; c < C; c++) Cy.push_back(w[c]);
#else
    Cy = balanced(yy);
#endif
    MX grad(K, C), grad2(K, C);
    S v;
    MX eta0 = eta;
#if SECOND_
    auto obj = WEIGHTS_ ? SecondOrderLogisticRegressionApproximation<S>(X, var, y, w, L) : SecondOrderLogisticRegressionApproximation<S>(X, var, y, L);
#else
    auto obj = WEIGHTS_ ? MultinomialLogisticRegression<S>(X, y, w, L) : MultinomialLogisticRegression<S>(X, y, L);
#endif
    v = obj.value(eta);
    obj.gradient(eta, grad);
    for (int k = 0; k < K; k++) for (int c = 0; c < C; c++) {
        Du J = objective(x, SECOND_ ? &var : nullptr, yy, Cy, L, eta0, k, c);
        if (!k && !c) vp_assert_eq(v, J.v, TOL * 10, "value is the documented objective");
        vp_assert_eq(grad(k, c), J.d, TOL * 10, "gradient is the derivative of value");
        vp_assert_eq(eta(k, c), eta0(k, c), 0, "parameters untouched");
    }
    // a dirty output buffer makes no difference, nor does calling twice
    for (int k = 0; k < K; k++) for (int c = 0; c < C; c++) grad2(k, c) = (S)vp_real("dirt", -2, 2);
    obj.gradient(eta, grad2);
    for (int k = 0; k < K; k++) for (int c = 0; c < C; c++) vp_assert_eq(grad2(k, c), grad(k, c), TOL, "gradient overwrites its output");
}
