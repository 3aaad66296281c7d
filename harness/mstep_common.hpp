// Shared by the M-step harnesses.
#pragma once
#include "vp.hpp"
#include <cmath>
#include "ldaplusplus/Document.hpp"
#include "ldaplusplus/Parameters.hpp"
#include "ldaplusplus/events/Events.hpp"
#include "ldaplusplus/events/ProgressEvents.hpp"
#include "ldaplusplus/em/UnsupervisedMStep.hpp"
#include "ldaplusplus/em/FastSupervisedMStep.hpp"
#include "ldaplusplus/em/MultinomialSupervisedMStep.hpp"
#include "ldaplusplus/em/CorrespondenceSupervisedMStep.hpp"
#include "ldaplusplus/em/SupervisedMStep.hpp"
#include "ldaplusplus/em/SemiSupervisedMStep.hpp"
#include "ldaplusplus/em/FastOnlineSupervisedMStep.hpp"
using namespace ldaplusplus;
#ifndef SCALAR
#define SCALAR double
#endif
#ifndef K_
#define K_ 2
#endif
#ifndef V_
#define V_ 2
#endif
#ifndef NC_
#define NC_ 2
#endif
#ifndef D_
#define D_ 2
#endif
#ifndef EPOCHS_
#define EPOCHS_ 2
#endif
#ifndef XM_
#define XM_ 3
#endif
typedef SCALAR S;
typedef vp::Vec<S> VX;
typedef vp::Mat<S> MX;
static const double TOL = sizeof(S) == 4 ? 5e-3 : 1e-6;

// one document with the posterior some E step produced for it
struct DocIn {
    Eigen::VectorXi X;
    int y;
    MX phi; VX gamma, tau;
    std::shared_ptr<corpus::Document> doc;
    std::shared_ptr<parameters::Parameters> vp;
};
inline DocIn make_doc(int K, int V, int C, const VX &alpha, bool corr, int ylo = 0, bool symbolicX = true, double philo = 0.0625, bool kinds = false) {
    DocIn d;
    d.X = symbolicX || vp::Known ? vp::ivec("X", V, 0, XM_) : Eigen::VectorXi::Constant(V, 1);
    // kinds: also an empty document, a very long one and one with repeated words (their lengths keep quotients exact)
    if (kinds) {
        static const int other[3][2] = {{0, 0}, {131072, 131072}, {3, 1}};
        const int i = vp::choice("kind", 4);
        if (i) for (int v = 0; v < V; v++) d.X[v] = other[i - 1][v % 2];
    }
    d.y = ylo + vp::choice("y", C - ylo);
#ifdef CONCRETE_PHI_
    d.phi = MX(K, V);
    // columns sum to one in eighths, so that every quotient is exact
    for (int v = 0; v < V; v++) { int j = 1 + (v * 3 + d.y * 2 + 4) % 7; d.phi(0, v) = (S)j / 8; d.phi(1, v) = (S)(8 - j) / 8; }
#else
    d.phi = vp::mat<S>("phi", K, V, philo, 1);
#endif
    d.gamma = alpha;
    // gamma is what the E steps return for this phi
    for (int k = 0; k < K; k++) for (int v = 0; v < V; v++) d.gamma[k] += d.X[v] * d.phi(k, v);
    d.doc = std::make_shared<corpus::ClassificationDecorator>(std::make_shared<corpus::EigenDocument>(d.X), d.y);
    if (corr) {
        d.tau = vp::vec<S>("tau", V, 0.0625, 1);
        d.vp = std::make_shared<parameters::SupervisedCorrespondenceVariationalParameters<S>>(d.gamma, d.phi, d.tau);
    } else d.vp = std::make_shared<parameters::VariationalParameters<S>>(d.gamma, d.phi);
    return d;
}
// Dual numbers: the reference objective yields its own derivative.
struct Du { S v, d; };
inline Du operator+(Du a, Du b) { return {a.v + b.v, a.d + b.d}; }
inline Du operator-(Du a, Du b) { return {a.v - b.v, a.d - b.d}; }
inline Du operator*(Du a, Du b) { return {a.v * b.v, a.d * b.v + a.v * b.d}; }
inline Du dexp(Du a) { S e = (S)vp_exp(a.v); return {e, e * a.d}; }
inline Du dlog(Du a) { return {(S)log(a.v), a.d / a.v}; }
inline Du cst(S x) { return {x, 0}; }
// class balanced multinomial logistic loss of the documentation; with a
// variance per document the second order form
inline Du objective(const std::vector<VX> &x, const std::vector<MX> *var, const std::vector<int> &y, const std::vector<S> &Cy, S L, const MX &eta, int dk, int dc) {
    const int K = eta.rows(), C = eta.cols();
    auto e = [&](int k, int c) { Du r = {eta(k, c), (S)(k == dk && c == dc)}; return r; };
    Du J = cst(0);
    for (size_t n = 0; n < x.size(); n++) {
        Du Z = cst(0), ty = cst(0);
        for (int c = 0; c < C; c++) {
            Du t = cst(0);
            for (int k = 0; k < K; k++) t = t + e(k, c) * cst(x[n][k]);
            Du f = dexp(t);
            if (var) {
                Du q = cst(0);
                for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) q = q + e(i, c) * e(j, c) * cst((*var)[n](i, j));
                f = f * (cst(1) + cst((S)0.5) * q);
            }
            Z = Z + f;
            if (c == y[n]) ty = t;
        }
        J = J - cst(Cy[y[n]]) * (ty - dlog(Z));
    }
    for (int k = 0; k < K; k++) for (int c = 0; c < C; c++) J = J + cst(L / 2) * e(k, c) * e(k, c);
    return J;
}
// weight of class c: N / (C * N_c) for the classes up to the largest one present
inline std::vector<S> balanced(const std::vector<int> &y) {
    int C = 0;
    for (int c : y) if (c + 1 > C) C = c + 1;
    std::vector<S> w(C);
    for (int c = 0; c < C; c++) {
        int n = 0;
        for (int t : y) if (t == c) n++;
        w[c] = n ? (S)y.size() / (S)(n * C) : (S)0;
    }
    return w;
}
