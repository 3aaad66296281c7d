// Training and transforming with worker threads, on every schedule.  The
// expectation and maximization steps are stand-ins given through the public
// constructor that record who was handed what.
#include "vp.hpp"
#include <thread>
#include "ldaplusplus/LDA.hpp"
#include "ldaplusplus/Document.hpp"
#include "ldaplusplus/Parameters.hpp"
#include "ldaplusplus/em/EStepInterface.hpp"
#include "ldaplusplus/em/MStepInterface.hpp"
#include "ldaplusplus/events/ProgressEvents.hpp"
using namespace ldaplusplus;
#ifndef SCALAR
#define SCALAR double
#endif
#ifndef D_
#define D_ 2
#endif
#ifndef W_
#define W_ 2
#endif
#ifndef I_
#define I_ 1
#endif
#ifndef H_
#define H_ 2
#endif
#ifndef K_
#define K_ 2
#endif
typedef SCALAR S;
typedef vp::Vec<S> VX;
typedef vp::Mat<S> MX;
// DMAX: room for documents that do not exist
enum { DMAX = (D_ < 60 ? 64 : D_ + 4) };
struct World {
    int D; MX g; std::thread::id home;
    int inferred[DMAX];              // written by whoever infers document d
    int merged[DMAX], ev[DMAX], passHooks, mSteps, epochs, expEvents, mergedNow, classes[DMAX];
    bool classified;
    int expected() const { return D; }
};
static World *Wd;
static int ident(const std::shared_ptr<corpus::Document> &doc) {
    const int d = doc->get_words()[0] - 100;
    vp_assert(d >= 0 && d < Wd->D && doc->get_words()[1] == 7 * d, "documents come from the data");
    return d;
}
struct E : em::EStepInterface<S> {
    std::shared_ptr<parameters::Parameters> mp;
    std::shared_ptr<parameters::Parameters> doc_e_step(const std::shared_ptr<corpus::Document> doc, const std::shared_ptr<parameters::Parameters> p) override {
        vp_assert(p.get() == mp.get(), "inference uses the model");
        const int d = ident(doc);
        vp_yield();
        Wd->inferred[d]++;
        get_event_dispatcher()->dispatch<events::ExpectationProgressEvent<S> >((S)(1000 + d));
        return std::make_shared<parameters::VariationalParameters<S> >(VX(Wd->g.col(d)), MX::Zero(Wd->g.rows(), 1));
    }
    void e_step() override {
        vp_assert(std::this_thread::get_id() == Wd->home, "the pass ends in the training thread");
        vp_assert(Wd->passHooks == Wd->mSteps && Wd->mergedNow == Wd->D, "the pass hook runs once, after all documents");
        Wd->passHooks++;
    }
};
struct M : em::MStepInterface<S> {
    std::shared_ptr<parameters::Parameters> mp;
    void doc_m_step(const std::shared_ptr<corpus::Document> doc, const std::shared_ptr<parameters::Parameters> v, std::shared_ptr<parameters::Parameters> m) override {
        vp_assert(std::this_thread::get_id() == Wd->home, "results are merged in the training thread");
        vp_assert(m.get() == mp.get(), "maximization updates the model");
        const int d = ident(doc);
        auto p = std::static_pointer_cast<parameters::VariationalParameters<S> >(v);
        for (int k = 0; k < p->gamma.rows(); k++) vp_assert_eq(p->gamma[k], Wd->g(k, d), 0, "a result is merged with its own document");
        if (Wd->classified) vp_assert(std::static_pointer_cast<corpus::ClassificationDocument>(doc)->get_class() == Wd->classes[d], "a document keeps its class");
        vp_assert(Wd->passHooks == Wd->mSteps, "documents are merged before the pass ends");
        Wd->merged[d]++; Wd->mergedNow++;
    }
    void m_step(std::shared_ptr<parameters::Parameters> m) override {
        vp_assert(m.get() == mp.get(), "maximization updates the model");
        vp_assert(std::this_thread::get_id() == Wd->home, "the pass ends in the training thread");
        vp_assert(Wd->passHooks == Wd->mSteps + 1, "the maximization follows the pass hook");
        Wd->mSteps++;
        for (int d = 0; d < Wd->D; d++) vp_assert(Wd->inferred[d] == Wd->mSteps && Wd->merged[d] == Wd->mSteps, "every document is inferred and merged exactly once per pass");
        Wd->mergedNow = 0;
    }
};
extern "C" void vp_main() {
    World w; Wd = &w;
    const int D = vp_concrete(D_), K = vp_concrete(K_);
    w.D = D; w.home = std::this_thread::get_id();
    for (int i = 0; i < DMAX; i++) w.inferred[i] = w.merged[i] = w.ev[i] = w.classes[i] = 0;
    w.passHooks = w.mSteps = w.epochs = w.expEvents = w.mergedNow = 0; w.classified = false;
    w.g = vp::mat<S>("g", K, D, 0.0625, 4);
    auto mp = std::make_shared<parameters::SupervisedModelParameters<S> >(vp::vec<S>("alpha", K, 0.0625, 2), vp::mat<S>("beta", K, 2, 0, 1), vp::mat<S>("eta", K, 2, -1, 1));
    VX a0 = mp->alpha; MX b0 = mp->beta, e0 = mp->eta;
    auto e = std::make_shared<E>(); auto m = std::make_shared<M>(); e->mp = m->mp = mp;
    Eigen::MatrixXi X(2, D); Eigen::VectorXi y(D);
    for (int d = 0; d < D; d++) { X(0, d) = 100 + d; X(1, d) = 7 * d; y[d] = w.classes[d] = d % 2; }
    {
        LDA<S> lda(mp, e, m, I_, W_);
        lda.get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> ev) {
            vp_assert(std::this_thread::get_id() == w.home, "events are delivered by the thread that processes them");
            if (ev->id() == "ExpectationProgressEvent") {
                const int d = (int)std::static_pointer_cast<events::ExpectationProgressEvent<S> >(ev)->likelihood() - 1000;
                w.ev[d]++; w.expEvents++;
            } else if (ev->id() == "EpochProgressEvent") {
                w.epochs++;
                vp_assert(w.epochs == w.mSteps, "the end of the pass is announced after the maximization");
                vp_assert(std::static_pointer_cast<events::EpochProgressEvent<S> >(ev)->model_parameters().get() == mp.get(), "the announced model is the trained one");
                for (int d = 0; d < w.D; d++) vp_assert(w.ev[d] == w.epochs, "all progress events of a pass are delivered before it ends");
            }
        });
        int passes = I_;
#if MODE_ == 0
        lda.fit(X);
#elif MODE_ == 1
        w.classified = true;
        lda.fit(X, y);
#elif MODE_ == 2
        w.classified = true;
        auto c = std::make_shared<corpus::EigenClassificationCorpus>(X, y, 3);
        for (int i = 0; i < I_; i++) { lda.partial_fit(std::static_pointer_cast<corpus::Corpus>(c)); vp_assert(w.epochs == i + 1, "a pass ends before training returns"); }
#elif MODE_ == 3
        w.classified = true;
        lda.partial_fit(X, y); passes = 1;
#elif MODE_ == 5
        // any history of calls, on data of any of these sizes
        for (int h = 0; h < H_; h++) {
            for (int i = 0; i < DMAX; i++) w.inferred[i] = w.merged[i] = w.ev[i] = 0;
            w.passHooks = w.mSteps = w.epochs = w.expEvents = w.mergedNow = 0;
            const int op = vp_choice("op", 4), n = vp_concrete(D - vp_choice("fewer", 2));
            w.D = n;
            Eigen::MatrixXi Xn = X.leftCols(n); Eigen::VectorXi yn = y.head(n);
            w.classified = op == 1 || op == 2;
            if (op == 0) lda.fit(Xn);
            if (op == 1) lda.fit(Xn, yn);
            if (op == 2) lda.partial_fit(Xn, yn);
            if (op == 3) {
                MX t = lda.transform(Xn);
                vp_assert(t.rows() == K && t.cols() == n, "one column per document");
                for (int d = 0; d < n; d++) for (int k = 0; k < K; k++) vp_assert_eq(t(k, d), w.g(k, d), 0, "column i is the posterior of document i");
            }
            const int ps = op == 3 ? 0 : op == 2 ? 1 : I_, es = op == 3 ? 1 : ps;
            vp_assert(w.mSteps == ps && w.epochs == ps && w.passHooks == ps, "as many passes as asked for");
            for (int d = 0; d < n; d++) {
                vp_assert(w.inferred[d] == es, "every document is inferred exactly once");
                vp_assert(w.merged[d] == ps, "every document is inferred and merged exactly once per pass");
                vp_assert(w.ev[d] == es, "all progress events of a pass are delivered before it ends");
            }
            vp_assert(w.expEvents == es * n, "no event is delivered twice");
        }
#else
        // transform: column i belongs to document i
        for (int i = 0; i < I_; i++) {
            MX t = lda.transform(X);
            vp_assert(t.rows() == K && t.cols() == D, "one column per document");
            for (int d = 0; d < D; d++) {
                for (int k = 0; k < K; k++) vp_assert_eq(t(k, d), w.g(k, d), 0, "column i is the posterior of document i");
                vp_assert(w.inferred[d] == i + 1, "every document is inferred exactly once");
                vp_assert(w.ev[d] == i + 1, "all progress events of a transformation are delivered before it returns");
            }
        }
        passes = 0;
        vp_assert(w.mSteps == 0 && w.passHooks == 0 && w.epochs == 0, "transforming trains nothing");
        for (int d = 0; d < D; d++) vp_assert(w.merged[d] == 0, "transforming trains nothing");
#endif
#if MODE_ != 5
        vp_assert(w.mSteps == passes && w.epochs == passes && w.passHooks == passes, "as many passes as asked for");
        if (passes) for (int d = 0; d < D; d++) vp_assert(w.inferred[d] == passes && w.merged[d] == passes && w.ev[d] == passes, "every document is inferred and merged exactly once per pass");
        vp_assert(w.expEvents == (MODE_ == 4 ? I_ : passes) * D, "no event is delivered twice");
#else
        (void)passes;
#endif
    }
    for (int k = 0; k < K; k++) {
        vp_assert_eq(mp->alpha[k], a0[k], 0, "the model is changed by the maximization only");
        for (int v = 0; v < 2; v++) { vp_assert_eq(mp->beta(k, v), b0(k, v), 0, "the model is changed by the maximization only"); vp_assert_eq(mp->eta(k, v), e0(k, v), 0, "the model is changed by the maximization only"); }
    }
}
