// Prediction: the expectation step is a stand-in that returns an arbitrary
// posterior per document; everything else is the real LDA through its public API.
#include "vp.hpp"
#include "ldaplusplus/LDA.hpp"
#include "ldaplusplus/Document.hpp"
#include "ldaplusplus/Parameters.hpp"
#include "ldaplusplus/em/EStepInterface.hpp"
#include "ldaplusplus/em/MStepInterface.hpp"
using namespace ldaplusplus;
#ifndef SCALAR
#define SCALAR double
#endif
#ifndef K_
#define K_ 2
#endif
#ifndef NC_
#define NC_ 2
#endif
#ifndef D_
#define D_ 2
#endif
typedef SCALAR S;
typedef vp::Vec<S> VX;
typedef vp::Mat<S> MX;
static const double TOL = sizeof(S) == 4 ? 1e-3 : 1e-7;
struct E : em::EStepInterface<S> {
    MX g; int calls = 0;
    std::shared_ptr<parameters::Parameters> doc_e_step(const std::shared_ptr<corpus::Document> doc, const std::shared_ptr<parameters::Parameters>) override {
        calls++;
        const int d = doc->get_words()[0] - 100;
        return std::make_shared<parameters::VariationalParameters<S> >(VX(g.col(d)), MX::Zero(g.rows(), 1));
    }
    void e_step() override { vp_assert(false, "no pass hook outside training"); }
};
struct M : em::MStepInterface<S> {
    void doc_m_step(const std::shared_ptr<corpus::Document>, const std::shared_ptr<parameters::Parameters>, std::shared_ptr<parameters::Parameters>) override { vp_assert(false, "no maximization outside training"); }
    void m_step(std::shared_ptr<parameters::Parameters>) override { vp_assert(false, "no maximization outside training"); }
};
extern "C" void vp_main() {
    const int K = vp_concrete(K_), C = vp_concrete(NC_), D = vp_concrete(D_);
    auto mp = std::make_shared<parameters::SupervisedModelParameters<S> >();
    mp->alpha = vp::vec<S>("alpha", K, 0.0625, 2);
    mp->beta = MX::Constant(K, 1, 1);
    mp->eta = vp::mat<S>("eta", K, C, -4, 4);
    VX a0 = mp->alpha; MX e0 = mp->eta;
    auto e = std::make_shared<E>(); auto m = std::make_shared<M>();
    MX z = vp::mat<S>("z", K, D, 0, 4);
    const int empty = vp_choice("empty", D + 1);            // this one has no words
    e->g = MX(K, D);
    for (int d = 0; d < D; d++) {
        S s = 0; for (int k = 0; k < K; k++) s += z(k, d);
        if (d == empty) e->g.col(d) = mp->alpha;
        else { vp_assume(s > 0.0625); for (int k = 0; k < K; k++) e->g(k, d) = mp->alpha[k] + z(k, d); }
    }
    Eigen::MatrixXi X(1, D);
    for (int d = 0; d < D; d++) X(0, d) = 100 + d;
    LDA<S> lda(mp, e, m, 1, 1);
    MX g; Eigen::VectorXi p;
    MX sc = lda.decision_function(X);
    vp_assert(sc.rows() == C && sc.cols() == D, "one score per class and document");
    for (int d = 0; d < D; d++) {
        S tot = 0; for (int k = 0; k < K; k++) tot += e->g(k, d) - a0[k];
        for (int c = 0; c < C; c++) {
            if (d == empty) { vp_assert_eq(sc(c, d), 0, TOL, "scores of a document without words are zero"); continue; }
            S r = 0; for (int k = 0; k < K; k++) r += e0(k, c) * (e->g(k, d) - a0[k]);
            vp_assert_eq(sc(c, d) * tot, r, 20 * TOL, "score = class parameters times expected topic proportions");
        }
    }
    vp_assert(e->calls == D, "one inference per document");
    std::tie(g, p) = lda.transform_predict(X);
    vp_assert(g.rows() == K && g.cols() == D && p.rows() == D, "one prediction per document");
    Eigen::VectorXi q = lda.predict(X);
    for (int d = 0; d < D; d++) {
        for (int k = 0; k < K; k++) vp_assert_eq(g(k, d), e->g(k, d), 0, "transform-and-predict returns the posteriors");
        vp_assert(p[d] == q[d], "transform-and-predict agrees with predict");
        vp_assert(q[d] >= 0 && q[d] < C, "the prediction is a class");
        for (int c = 0; c < C; c++) vp_assert_le(sc(c, d), sc(q[d], d), TOL, "the prediction has the greatest score");
    }
    for (int k = 0; k < K; k++) { vp_assert_eq(mp->alpha[k], a0[k], 0, "model untouched"); for (int c = 0; c < C; c++) vp_assert_eq(mp->eta(k, c), e0(k, c), 0, "model untouched"); }
}
