// Shared by the E-step harnesses: building inputs and the reference model.
#pragma once
#include "vp.hpp"
#include <cmath>
#include "ldaplusplus/Document.hpp"
#include "ldaplusplus/Parameters.hpp"
#include "ldaplusplus/events/Events.hpp"
#include "ldaplusplus/events/ProgressEvents.hpp"
#include "ldaplusplus/em/UnsupervisedEStep.hpp"
#include "ldaplusplus/em/FastSupervisedEStep.hpp"
#include "ldaplusplus/em/MultinomialSupervisedEStep.hpp"
#include "ldaplusplus/em/CorrespondenceSupervisedEStep.hpp"
#include "ldaplusplus/em/SupervisedEStep.hpp"
#include "ldaplusplus/em/SemiSupervisedEStep.hpp"
using namespace ldaplusplus;
#ifndef SCALAR
#define SCALAR double
#endif
#ifndef K_
#define K_ 2
#endif
#ifndef V_
#define V_ 2
#endif
#ifndef NC_
#define NC_ 2
#endif
#ifndef IT_
#define IT_ 1
#endif
#ifndef FP_
#define FP_ 1
#endif
#ifndef BSCALE_
#define BSCALE_ 0
#endif
#ifndef XM_
#define XM_ 3
#endif
typedef SCALAR S;
typedef vp::Vec<S> VX;
typedef vp::Mat<S> MX;
enum Variant { UNSUP = 0, FAST, MULTI, CORR, SUP, SEMI };
static const double TOL = sizeof(S) == 4 ? 5e-3 : 1e-6;

struct In {
    int K, V, C, IT, FP, y;
    Eigen::VectorXi X;
    VX alpha; MX beta, eta;
    S tol, w, mu;
    Eigen::MatrixXi XX; Eigen::VectorXi yy;
    std::shared_ptr<corpus::EigenClassificationCorpus> corp;
    std::shared_ptr<corpus::Document> doc;
    std::shared_ptr<parameters::Parameters> model;
};
inline void make(In &in, int var, double betaLo, double etaLo, double etaHi, bool labelled = true) {
    in.K = vp_concrete(K_); in.V = vp_concrete(V_); in.C = vp_concrete(NC_); in.IT = vp_concrete(IT_); in.FP = vp_concrete(FP_);
#ifdef ENUM_X_
    in.X = Eigen::VectorXi(in.V);               // counts enumerated instead of symbolic
    for (int v = 0; v < in.V; v++) in.X[v] = vp_choice("X", XM_ + 1);
#else
    in.X = vp::ivec("X", in.V, 0, XM_);
#endif
    in.alpha = vp::vec<S>("alpha", in.K, 0.0625, 4);
#ifdef KNOWN_
    in.beta = vp::mat<S>("beta", in.K, in.V, 0.0625, 1);
    // rare words: tiny probabilities under every topic
    for (int v = 1; v < in.V; v += 2) for (int k = 0; k < in.K; k++) in.beta(k, v) *= (S)(1.0 / (1LL << BSCALE_));
    if (betaLo == 0 && var != SUP) for (int v = 0; v < in.V; v++) if (!in.X[v]) for (int k = 0; k < in.K; k++) if ((v + k) % 3 || v % 2) in.beta(k, v) = 0;
#else
    in.beta = vp::mat<S>("beta", in.K, in.V, betaLo, 1);
#endif
    in.tol = (S)vp_real("tol", 0, 2);
    in.y = 0; in.w = 1; in.mu = 2;
    if (var == UNSUP) {
        in.model = std::make_shared<parameters::ModelParameters<S>>(in.alpha, in.beta);
        in.doc = std::make_shared<corpus::EigenDocument>(in.X);
        return;
    }
    in.y = vp_choice("y", in.C);
    in.eta = vp::mat<S>("eta", in.K, in.C, etaLo, etaHi);
    if (var == FAST || var == MULTI || var == SEMI) in.w = (S)vp::real("w", 0.0625, 3);
    in.model = std::make_shared<parameters::SupervisedModelParameters<S>>(in.alpha, in.beta, in.eta);
    // a two-document corpus whose first document is ours
    in.XX = Eigen::MatrixXi::Constant(in.V, 2, 1);
    for (int v = 0; v < in.V; v++) in.XX(v, 0) = in.X[v];
    in.yy = Eigen::VectorXi(2);
    in.yy[0] = in.y; in.yy[1] = in.C - 1;
    in.corp = std::make_shared<corpus::EigenClassificationCorpus>(in.XX, in.yy);
    if (labelled) in.doc = in.corp->at(0);
    else in.doc = std::make_shared<corpus::ClassificationDecorator>(std::make_shared<corpus::EigenDocument>(in.X, in.corp), -1 - vp_choice("neg", 2));
}
inline std::shared_ptr<em::EStepInterface<S>> step(int var, const In &in, S lik) {
    switch (var) {
        case UNSUP: return std::make_shared<em::UnsupervisedEStep<S>>(in.IT, in.tol, lik, 7);
#ifdef DECAY_
        case FAST: return std::make_shared<em::FastSupervisedEStep<S>>(in.IT, in.tol, in.w, em::FastSupervisedEStep<S>::ExponentialDecay, lik, 7);
#else
        case FAST: return std::make_shared<em::FastSupervisedEStep<S>>(in.IT, in.tol, in.w, em::FastSupervisedEStep<S>::Constant, lik, 7);
#endif
        case MULTI: return std::make_shared<em::MultinomialSupervisedEStep<S>>(in.IT, in.tol, in.mu, in.w, lik, 7);
        case CORR: return std::make_shared<em::CorrespondenceSupervisedEStep<S>>(in.IT, in.tol, in.mu, lik, 7);
        default: return std::make_shared<em::SupervisedEStep<S>>(in.IT, in.tol, in.FP, lik, 7);
    }
}
// ---- the reference: textbook loops, no vectorisation
struct Ref {
    VX gamma, tau; MX phi; VX h;
};
inline void normalise(MX &p, int v) {
    S s = 0;
    for (int k = 0; k < p.rows(); k++) s += p(k, v);
    if (s != 0) for (int k = 0; k < p.rows(); k++) p(k, v) /= s;
}
inline Ref reference(int var, const In &in) {
    const int K = in.K, V = in.V, C = in.C;
    Ref r;
    r.phi = MX::Constant(K, V, (S)1.0 / K);
    r.gamma = VX(K); r.tau = VX::Constant(V, (S)1.0 / V);
    VX old = VX::Zero(K);
    int N = 0;
    for (int v = 0; v < V; v++) N += in.X[v];
    for (int k = 0; k < K; k++) r.gamma[k] = in.alpha[k] + (S)N / K;
    for (int it = 0; it < in.IT; it++) {
        S ch = 0;
        for (int k = 0; k < K; k++) { S d = old[k] - r.gamma[k]; ch += std::abs(d); }
#ifdef KNOWN_
        vp_assume(std::abs(ch / K - in.tol) > (S)(TOL * (1 + ch)));      // the numbers are rounded here
#endif
        if (ch / K < in.tol) break;
        old = r.gamma;
        VX e(K);
        for (int k = 0; k < K; k++) e[k] = (S)vp_digamma(r.gamma[k]);
        if (var == UNSUP) {
            for (int v = 0; v < V; v++) { for (int k = 0; k < K; k++) r.phi(k, v) = in.beta(k, v) * (S)vp_exp(e[k]); normalise(r.phi, v); }
        } else if (var == FAST) {
            if (N > 0) {
                VX z = VX::Zero(K);
                for (int v = 0; v < V; v++) if (in.X[v]) for (int k = 0; k < K; k++) z[k] += r.phi(k, v) * in.X[v] / N;
                VX sm(C); S tot = 0;
                for (int c = 0; c < C; c++) { S a = 0; for (int k = 0; k < K; k++) a += in.eta(k, c) * z[k]; sm[c] = (S)vp_exp(a); tot += sm[c]; }
                S mx = in.eta(0, 0);
                for (int c = 0; c < C; c++) for (int k = 0; k < K; k++) if (in.eta(k, c) > mx) mx = in.eta(k, c);
                if (!(mx > 0)) mx = 1;
                for (int k = 0; k < K; k++) {
                    S a = 0;
                    for (int c = 0; c < C; c++) a += in.eta(k, c) / mx * sm[c] / tot;
                    e[k] += in.w * (in.eta(k, in.y) / mx - a);
                }
                for (int v = 0; v < V; v++) { for (int k = 0; k < K; k++) r.phi(k, v) = in.beta(k, v) * (S)vp_exp(e[k]); normalise(r.phi, v); }
            }
        } else if (var == MULTI) {
            for (int v = 0; v < V; v++) { for (int k = 0; k < K; k++) r.phi(k, v) = in.beta(k, v) * (S)vp_exp(e[k] + in.w * (S)log(in.eta(k, in.y))); normalise(r.phi, v); }
        } else if (var == CORR) {
            for (int v = 0; v < V; v++) { for (int k = 0; k < K; k++) r.phi(k, v) = in.beta(k, v) * (S)vp_exp(e[k]) * (S)vp_exp((S)log(in.eta(k, in.y)) * r.tau[v]); normalise(r.phi, v); }
            S tot = 0;
            for (int v = 0; v < V; v++) { S a = 0; for (int k = 0; k < K; k++) a += r.phi(k, v) * (S)log(in.eta(k, in.y)); r.tau[v] = (S)vp_exp(a); tot += r.tau[v]; }
            for (int v = 0; v < V; v++) r.tau[v] /= tot;
        } else {
            // sLDA: coordinate updates word by word; h is linear in the other words
            for (int n = 0; n < V; n++) {
                if (!in.X[n]) continue;
                VX h = VX::Zero(K);
                for (int c = 0; c < C; c++) {
                    S pr = 1;
                    for (int m = 0; m < V; m++) if (m != n && in.X[m]) { S q = 0; for (int k = 0; k < K; k++) q += (S)vp_exp(in.eta(k, c) * ((S)in.X[m] / N)) * r.phi(k, m); pr *= q; }
                    for (int k = 0; k < K; k++) h[k] += (S)vp_exp(in.eta(k, c) * ((S)in.X[n] / N)) * pr;
                }
                VX was = r.phi.col(n);
                for (int f = 0; f < in.FP; f++) {
                    S d = 0;
                    for (int k = 0; k < K; k++) d += h[k] * r.phi(k, n);
                    MX p(K, 1);
                    for (int k = 0; k < K; k++) p(k, 0) = in.beta(k, n) * (S)vp_exp((S)vp_digamma(r.gamma[k]) + (S)in.X[n] / N * in.eta(k, in.y) - h[k] / (d * in.X[n]));
                    S s = 0;
                    for (int k = 0; k < K; k++) s += p(k, 0);
                    for (int k = 0; k < K; k++) r.phi(k, n) = p(k, 0) / s;
                }
                for (int k = 0; k < K; k++) r.gamma[k] += in.X[n] * (r.phi(k, n) - was[k]);
            }
            continue;
        }
        for (int k = 0; k < K; k++) { S g = in.alpha[k]; for (int v = 0; v < V; v++) if (in.X[v]) g += in.X[v] * r.phi(k, v); r.gamma[k] = g; }
    }
    return r;
}
