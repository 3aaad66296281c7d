// Counting M steps: the new topics are the row-normalised expected word counts
// of exactly the documents passed in since the last call; likewise eta.
#include "mstep_common.hpp"
extern "C" void vp_main() {
    const int K = vp_concrete(K_), V = vp_concrete(V_), C = vp_concrete(NC_);
    const int var = VAR_;                       // 0 unsupervised 1 multinomial 2 correspondence
    VX alpha = vp::vec<S>("alpha", K, 0.0625, 4);
    MX beta = vp::mat<S>("beta", K, V, 0.0625, 1), eta = vp::mat<S>("eta", K, C, 0.0625, 1);
    S mu = (S)vp_real("mu", vp::Known ? 1.0625 : 1, 3);
    std::shared_ptr<em::MStepInterface<S>> m;
    if (var == 0) m = std::make_shared<em::UnsupervisedMStep<S>>();
    else if (var == 1) m = std::make_shared<em::MultinomialSupervisedMStep<S>>(mu);
    else m = std::make_shared<em::CorrespondenceSupervisedMStep<S>>(mu);
    std::shared_ptr<events::EventDispatcherInterface> disp = std::make_shared<events::EventDispatcher>();
    int nev = 0; S reported = 0;
    disp->add_listener([&](std::shared_ptr<events::Event> ev) {
        if (ev->id() == "MaximizationProgressEvent") { nev++; reported = std::static_pointer_cast<events::MaximizationProgressEvent<S>>(ev)->likelihood(); }
    });
    m->set_event_dispatcher(disp);
    auto model = std::make_shared<parameters::SupervisedModelParameters<S>>(alpha, beta, eta);
    for (int ep = 0; ep < EPOCHS_; ep++) {
        const int D = ep % 2 ? 1 : D_;
        MX b = MX::Zero(K, V), h = MX::Zero(K, C);
        S lpy = 0;
        MX eta0 = model->eta, beta0 = model->beta;
        for (int d = 0; d < D; d++) {
            // an epoch after the first reuses fixed counts, so that the sizes stay small
            DocIn in = make_doc(K, V, C, alpha, var == 2, 0, ep == 0);
            m->doc_m_step(in.doc, in.vp, model);
            for (int k = 0; k < K; k++) for (int v = 0; v < V; v++) {
                S c = in.X[v] * in.phi(k, v) * (var == 2 ? in.tau[v] : (S)1);
                b(k, v) += c; h(k, in.y) += c;
                if (var) lpy += c * (S)log(eta0(k, in.y));
            }
            for (int k = 0; k < K; k++) for (int v = 0; v < V; v++) vp_assert_eq(model->beta(k, v), beta0(k, v), 0, "model unchanged until the M step");
        }
        bool mass = true;
        for (int k = 0; k < K; k++) { S s = 0; for (int v = 0; v < V; v++) s += b(k, v); if (!(s > 0)) mass = false; }
        vp_assume(mass);
        nev = 0;
        m->m_step(model);
        for (int k = 0; k < K; k++) {
            S s = 0, t = 0;
            for (int v = 0; v < V; v++) s += b(k, v);
            for (int v = 0; v < V; v++) { vp_assert_eq(model->beta(k, v), b(k, v) / s, TOL, "beta = normalised expected counts"); t += model->beta(k, v); }
            vp_assert_eq(t, 1, TOL, "topics sum to one");
            vp_assert_eq(model->alpha[k], alpha[k], 0, "alpha unchanged");
            if (var) {
                S n = 0;
                for (int c = 0; c < C; c++) n += h(k, c) + mu - 1;
                for (int c = 0; c < C; c++) vp_assert_eq(model->eta(k, c), (h(k, c) + mu - 1) / n, TOL, "eta = normalised smoothed class counts");
            } else for (int c = 0; c < C; c++) vp_assert_eq(model->eta(k, c), eta0(k, c), 0, "eta unchanged");
        }
        if (var) { vp_assert(nev == 1, "one maximization event"); vp_assert_eq(reported, lpy, TOL * 10, "reported log p(y)"); }
    }
}
