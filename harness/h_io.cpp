// Model and data files and snapshots of the command line tools.
#include "vp.hpp"
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include "ldaplusplus/NumpyFormat.hpp"
#include "ldaplusplus/Parameters.hpp"
#include "ldaplusplus/events/ProgressEvents.hpp"
#include "applications/lda_io.hpp"
#include "applications/SnapshotEvery.hpp"
using namespace ldaplusplus;
typedef Eigen::MatrixXd MX;
typedef Eigen::VectorXd VX;
typedef parameters::SupervisedModelParameters<double> SMP;
static uint64_t bits(double v) { uint64_t u; memcpy(&u, &v, 8); return u; }
static void fill(MX &m) { for (int j = 0; j < m.cols(); j++) for (int i = 0; i < m.rows(); i++) { uint64_t u = vp_bits("x", 64); memcpy(&m(i, j), &u, 8); } }
static std::shared_ptr<SMP> model(int K, int V, int C) {
    MX a(K, 1), b(K, V), e(K, C);
    fill(a); fill(b); fill(e);
    return std::make_shared<SMP>(VX(a), b, e);
}
static void same(const std::shared_ptr<SMP> &p, const MX &a, const MX &b, const MX &e) {
    vp_assert(p->alpha.rows() == a.rows() && p->beta.rows() == b.rows() && p->beta.cols() == b.cols() && p->eta.cols() == e.cols() && p->eta.rows() == e.rows(), "the model comes back with its shape");
    for (int i = 0; i < a.rows(); i++) vp_assert_bits(bits(p->alpha[i]), bits(a(i, 0)), "the model comes back unchanged");
    for (int i = 0; i < b.rows(); i++) for (int j = 0; j < b.cols(); j++) vp_assert_bits(bits(p->beta(i, j)), bits(b(i, j)), "the model comes back unchanged");
    for (int i = 0; i < e.rows(); i++) for (int j = 0; j < e.cols(); j++) vp_assert_bits(bits(p->eta(i, j)), bits(e(i, j)), "the model comes back unchanged");
}
static bool exists(const std::string &p) { std::ifstream f(p); return f.good(); }
static std::string digits(int v) { std::string s; do { s.insert(s.begin(), (char)('0' + v % 10)); v /= 10; } while (v); return s; }
extern "C" void vp_main() {
#if MODE_ == 0
    #ifdef BIG_
    const int K = 40, V = 120, C = 35 * vp_choice("C", 2);
#else
    const int K = 1 + vp_choice("K", 3), V = 1 + vp_choice("V", 3), C = vp_choice("C", 3);
#endif
    auto p = model(K, V, C);
    if (!C && vp_choice("none", 2)) p->eta = MX();      // an unsupervised model has no classifier at all
    const MX a = p->alpha, b = p->beta, e = p->eta;
    if (vp_choice("old", 2)) io::save_lda("model", model(3, 4, 2));      // a longer model was there before
    io::save_lda("model", p);
    same(p, a, b, e);
    auto q = io::load_lda("model");
    same(q, a, b, e);
    same(io::load_lda("model"), a, b, e);
#elif MODE_ == 1
    // the data file the documentation asks for: words x documents, then the labels
    #ifdef BIG_
    const int V = 90, D = 110;
#else
    const int V = 1 + vp_choice("V", 3), D = 1 + vp_choice("D", 3);
#endif
    Eigen::MatrixXi X(V, D), y(D, 1);
    for (int d = 0; d < D; d++) { for (int v = 0; v < V; v++) X(v, d) = (int)vp_bits("X", 32); y(d, 0) = (int)vp_bits("y", 32); }
    const bool labels = vp_choice("labels", 2);
    {
        std::ofstream f("data", std::ios::out | std::ios::binary);
        f << numpy_format::NumpyOutput<int>(X);
        if (labels) f << numpy_format::NumpyOutput<int>(y);
    }
    Eigen::MatrixXi X1 = Eigen::MatrixXi::Constant(4, 4, 9), X2, y2;
    io::parse_input_data("data", X1);
    vp_assert(X1.rows() == V && X1.cols() == D, "documents come back with their shape");
    for (int d = 0; d < D; d++) for (int v = 0; v < V; v++) vp_assert_bits((uint32_t)X1(v, d), (uint32_t)X(v, d), "documents come back unchanged");
    bool threw = false;
    try { io::parse_input_data("data", X2, y2); } catch (const std::exception &) { threw = true; }
    vp_assert(threw == !labels, "missing labels are an error");
    if (labels) {
        vp_assert(X2.rows() == V && X2.cols() == D && y2.rows() == D && y2.cols() == 1, "documents come back with their shape");
        for (int d = 0; d < D; d++) {
            for (int v = 0; v < V; v++) vp_assert_bits((uint32_t)X2(v, d), (uint32_t)X(v, d), "documents come back unchanged");
            vp_assert_bits((uint32_t)y2(d, 0), (uint32_t)y(d, 0), "labels come back unchanged");
        }
    }
#else
    // snapshots: after every n-th pass, of the model of that pass
    const int n = FIX_ ? FIX_ : 1 + vp_choice("every", 4), N = vp_concrete(N_);
    auto p = model(2, 2, 1);
    SnapshotEvery s("snap", n);
    int passes = 0;
    for (int i = 0; i < N; i++) {
        if (!FIX_ && vp_choice("other", 2)) { s.on_event(std::make_shared<events::ExpectationProgressEvent<double> >(-1.0)); s.on_event(std::make_shared<events::MaximizationProgressEvent<double> >(-1.0)); }
        if (FIX_ && i + n < N) fill(p->eta); else { fill(p->beta); fill(p->eta); }
        s.on_event(std::make_shared<events::EpochProgressEvent<double> >(p));
        passes++;
        std::string name = digits(passes);
        while (name.size() < 3) name = "0" + name;
        name = "snap_" + name;
        vp_assert(exists(name) == (passes % n == 0), "a snapshot after exactly every n-th pass, named after it");
        if (passes % n == 0) same(io::load_lda(name), p->alpha, p->beta, p->eta);
    }
#endif
}
