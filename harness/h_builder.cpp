// The builder: initial models, call sequences, steps configured as asked.
#include "vp.hpp"
#include <cmath>
#include <stdexcept>
#include "ldaplusplus/LDABuilder.hpp"
#include "ldaplusplus/em/UnsupervisedEStep.hpp"
#include "ldaplusplus/em/FastSupervisedEStep.hpp"
#include "ldaplusplus/em/SupervisedEStep.hpp"
#include "ldaplusplus/em/MultinomialSupervisedEStep.hpp"
#include "ldaplusplus/em/CorrespondenceSupervisedEStep.hpp"
#include "ldaplusplus/em/UnsupervisedMStep.hpp"
#include "ldaplusplus/events/ProgressEvents.hpp"
using namespace ldaplusplus;
#ifndef SCALAR
#define SCALAR double
#endif
#ifndef K_
#define K_ 2
#endif
#ifndef V_
#define V_ 2
#endif
#ifndef D_
#define D_ 2
#endif
#ifndef N_
#define N_ 1
#endif
#ifndef LEN_
#define LEN_ 3
#endif
typedef SCALAR S;
typedef vp::Vec<S> VX;
typedef vp::Mat<S> MX;
typedef parameters::SupervisedModelParameters<S> SMP;
static const double TOL = sizeof(S) == 4 ? 1e-3 : 1e-7;
static void distributions(const SMP &m, int K, int V) {
    vp_assert(m.beta.rows() == K && m.beta.cols() == V && m.alpha.rows() == K, "topics have the requested shape");
    for (int k = 0; k < K; k++) {
        S s = 0;
        vp_assert_eq(m.alpha[k], (S)(1.0 / K), TOL, "the prior is one over the number of topics");
        for (int w = 0; w < V; w++) { s += m.beta(k, w); vp_assert_le(0, m.beta(k, w), 0, "topic probabilities are not negative"); }
        vp_assert_eq(s, 1, TOL, "topics are probability distributions");
    }
}
static std::shared_ptr<SMP> model(int K, int V, int C) {
    return std::make_shared<SMP>(vp::vec<S>("ma", K, 0.0625, 2), vp::mat<S>("mb", K, V, 0, 1), vp::mat<S>("me", K, C, -2, 2));
}
static void same(const MX &a, const MX &b, const char *l) {
    vp_assert(a.rows() == b.rows() && a.cols() == b.cols(), l);
    for (int j = 0; j < a.cols(); j++) for (int i = 0; i < a.rows(); i++) vp_assert_eq(a(i, j), b(i, j), 0, l);
}
extern "C" void vp_main() {
    const int K = vp_concrete(K_), V = vp_concrete(V_), D = vp_concrete(D_), N = vp_concrete(N_);
    const int seed = vp_symbolic() ? 3 : (int)vp_bits("nativeseed", 12);
    LDABuilder<S> b;
    b.set_workers(1).set_iterations(1);
#if MODE_ == 0
    Eigen::MatrixXi X = vp::imat("X", V, D, 0, 1000);
#if CORPUS_
    b.initialize_topics_seeded(std::make_shared<corpus::EigenCorpus>(X), K, N, seed);
#else
    b.initialize_topics_seeded(X, K, N, seed);
#endif
    LDA<S> lda = b;
    auto m = lda.model_parameters<SMP>();
    distributions(*m, K, V);
    // every topic: add-one smoothed counts of N documents of the data
    int tuples = 1; for (int r = 0; r < N; r++) tuples *= D;
    for (int k = 0; k < K; k++) {
        bool some = false;
        for (int t = 0; t < tuples; t++) {
            Eigen::VectorXi c = Eigen::VectorXi::Ones(V);
            int q = t;
            for (int r = 0; r < N; r++, q /= D) for (int w = 0; w < V; w++) c[w] += X(w, q % D);
            S tot = 0; for (int w = 0; w < V; w++) tot += (S)c[w];
            bool all = true;
            for (int w = 0; w < V; w++) { S df = m->beta(k, w) * tot - (S)c[w]; S e = (S)(1e-4) * (S)(c[w] + 1); all = all & (df <= e) & (-df <= e); }
            some = some | all;
        }
        vp_assert(some, "a seeded topic is the smoothed counts of documents of the data");
    }
#elif MODE_ == 1
    b.initialize_topics_random(V, K, seed);
    LDA<S> lda = b;
    auto m = lda.model_parameters<SMP>();
    // (a row of exact zeros, probability 2^-53 per entry, is outside the claim)
    for (int k = 0; k < K; k++) { bool nz = false; for (int w = 0; w < V; w++) nz = nz | (m->beta(k, w) != 0); vp_assume(nz); }
    distributions(*m, K, V);
#elif MODE_ == 2 || MODE_ == 4
    // sequences of initialisations; then a build that must reflect the last ones or throw
    const int C = 2;
    auto src = model(3, V, C), src2 = std::make_shared<SMP>(VX::Constant(2, 0.5), MX::Constant(2, V, 0.5), MX());
    int topics = 0, kind = 0, etaRows = 0, etaKind = 0, etaC = 0;
    bool threw = false;
    for (int i = 0; i < LEN_; i++) {
        bool expectThrow = false, got = false;
        const int op = vp_choice("op", 7);
        try {
            switch (op) {
                case 0: break;
                case 1: topics = 2; kind = 1; b.initialize_topics_from_model(src2); break;
                case 2: topics = 3; kind = 2; b.initialize_topics_from_model(src); break;
                case 3: expectThrow = topics == 0; if (!expectThrow) { etaRows = topics; etaKind = 1; etaC = 2; } b.initialize_eta_zeros(2); break;
                case 4: expectThrow = topics == 0; if (!expectThrow) { etaRows = topics; etaKind = 2; etaC = 4; } b.initialize_eta_uniform(4); break;
                case 5: etaRows = 3; etaKind = 3; etaC = C; b.initialize_eta_from_model(src); break;
                case 6: { topics = 4; kind = 3; Eigen::MatrixXi Y = Eigen::MatrixXi::Ones(V, 1); b.initialize_topics_seeded(Y, 4, 1, seed); break; }
            }
        } catch (const std::runtime_error &) { got = true; }
        vp_assert(got == expectThrow, "a classifier needs topics first");
    }
#if MODE_ == 2
    const int e = vp_choice("e", 2) * 2, ms = vp_choice("m", 2) * 2, clear = 0;
#else
    const int e = vp_choice("e", 7), ms = vp_choice("m", 8), clear = vp_choice("clear", 2);
#endif
    bool need = e >= 2 && e <= 6;
    // a step the builder does not know clears the requirement
    if (clear) { b.set_supervised_e_step(); b.set_supervised_m_step(); }
    switch (e) {
        case 0: b.set_classic_e_step(); break;
        case 1: b.set_e(std::make_shared<em::UnsupervisedEStep<S> >()); break;
        case 2: b.set_supervised_e_step(); break;
        case 3: b.set_fast_supervised_e_step(); break;
        case 4: b.set_semi_supervised_e_step(); break;
        case 5: b.set_multinomial_supervised_e_step(); break;
        case 6: b.set_correspondence_supervised_e_step(); break;
    }
    need = need || ms >= 2;
    switch (ms) {
        case 0: b.set_classic_m_step(); break;
        case 1: b.set_m(std::make_shared<em::UnsupervisedMStep<S> >()); break;
        case 2: b.set_supervised_m_step(); break;
        case 3: b.set_fast_supervised_m_step(); break;
        case 4: b.set_semi_supervised_m_step(); break;
        case 5: b.set_multinomial_supervised_m_step(); break;
        case 6: b.set_correspondence_supervised_m_step(); break;
        case 7: b.set_fast_supervised_online_m_step((size_t)2); break;
    }
    const bool mustThrow = topics == 0 || (need && etaRows == 0) || (etaRows != 0 && etaRows != topics);
    try {
        LDA<S> lda = b;
        vp_assert(!mustThrow, "an uninitialised or inconsistent model is never built");
        auto m = lda.model_parameters<SMP>();
        vp_assert(m->beta.rows() == topics && m->alpha.rows() == topics, "topics have the requested shape");
        if (kind == 2) { same(m->beta, src->beta, "topics of a model are taken unchanged"); same(m->alpha, src->alpha, "topics of a model are taken unchanged"); }
        vp_assert(m->eta.rows() == etaRows && m->eta.cols() == etaC, "the classifier has the requested shape");
        if (etaKind == 3) same(m->eta, src->eta, "the classifier of a model is taken unchanged");
        if (etaKind == 1) same(m->eta, MX::Constant(etaRows, etaC, 0), "the classifier has the requested initial value");
        if (etaKind == 2) same(m->eta, MX::Constant(etaRows, etaC, (S)0.25), "the classifier has the requested initial value");
    } catch (const std::runtime_error &) { threw = true; }
    vp_assert(threw == mustThrow, "building fails exactly when something is missing");
#elif MODE_ == 3
    // the expectation steps are configured exactly as asked
    const int C = 2;
    auto m = std::make_shared<SMP>(vp::vec<S>("ma", K, 0.0625, 2), vp::mat<S>("mb", K, V, 0.125, 1), vp::mat<S>("me", K, C, 0.125, 2));
    const int it = 1 + vp_choice("it", 2);
    const S tol = (S)vp_real("tol", 0, 2), w1 = (S)vp_real("w1", 0.25, 3), w2 = (S)vp_real("w2", 0.25, 3), cl = vp_choice("cl", 2) ? 1 : 0;
    std::shared_ptr<em::EStepInterface<S> > x, y;
    switch (VAR_) {
        case 0: x = b.get_classic_e_step(it, tol, cl, seed); y = std::make_shared<em::UnsupervisedEStep<S> >(it, tol, cl, seed); break;
        case 1: x = b.get_fast_supervised_e_step(it, tol, w1, cl, seed); y = std::make_shared<em::FastSupervisedEStep<S> >(it, tol, w1, em::FastSupervisedEStep<S>::Constant, cl, seed); break;
        case 2: x = b.get_multinomial_supervised_e_step(it, tol, w1, w2, cl, seed); y = std::make_shared<em::MultinomialSupervisedEStep<S> >(it, tol, w1, w2, cl, seed); break;
        case 3: x = b.get_correspondence_supervised_e_step(it, tol, w1, cl, seed); y = std::make_shared<em::CorrespondenceSupervisedEStep<S> >(it, tol, w1, cl, seed); break;
        default: { const int fp = vp_choice("fp", 3); x = b.get_supervised_e_step(it, tol, fp, cl, seed); y = std::make_shared<em::SupervisedEStep<S> >(it, tol, fp, cl, seed); }
    }
    Eigen::MatrixXi X(V, 1); for (int w = 0; w < V; w++) X(w, 0) = 1 + w;
    Eigen::VectorXi cls(1); cls[0] = vp_choice("class", C);
    auto corpus = std::make_shared<corpus::EigenClassificationCorpus>(X, cls, 0);
    S ll[2] = {0, 0};
    std::shared_ptr<parameters::VariationalParameters<S> > r[2];
    for (int i = 0; i < 2; i++) {
        auto s = i ? y : x;
        std::shared_ptr<events::EventDispatcherInterface> d = s->get_event_dispatcher();
        d->add_listener([&](std::shared_ptr<events::Event> ev) { ll[i] = std::static_pointer_cast<events::ExpectationProgressEvent<S> >(ev)->likelihood(); });
        r[i] = std::static_pointer_cast<parameters::VariationalParameters<S> >(s->doc_e_step(corpus->at(0), m));
    }
    same(r[0]->gamma, r[1]->gamma, "a step works as one constructed with the same settings");
    same(r[0]->phi, r[1]->phi, "a step works as one constructed with the same settings");
    vp_assert((ll[0] != ll[0]) == (ll[1] != ll[1]), "a step works as one constructed with the same settings");
    if (ll[0] == ll[0]) vp_assert_eq(ll[0], ll[1], 0, "a step works as one constructed with the same settings");
#endif
}
