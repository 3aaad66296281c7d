// Supervised M steps: eta is fitted on exactly the labelled documents of this
// epoch, the first reported value is the documented objective at the old eta,
// every step is a descent step along the objective's gradient, the objective
// never gets worse, and the state is reset for the next epoch.
#include "mstep_common.hpp"
#ifndef ITER_
#define ITER_ 1
#endif
extern "C" void vp_main() {
    const int K = vp_concrete(K_), V = vp_concrete(V_), C = vp_concrete(NC_);
    const int var = VAR_;                       // 0 fast 1 supervised (second order) 2 semi-supervised
    VX alpha = vp::vec<S>("alpha", K, 0.0625, 4);
    MX beta = vp::mat<S>("beta", K, V, 0.0625, 1), eta = vp::mat<S>("eta", K, C, 0, 2);
    S L = ITER_ > 1 ? (S)vp::real("L", 0.0078125, 1) : (S)vp_real("L", 0.0078125, 1), tol = (S)vp_real("tol", 0, 1);
    std::shared_ptr<em::MStepInterface<S>> m;
    if (var == 0) m = std::make_shared<em::FastSupervisedMStep<S>>(ITER_, tol, L);
    else if (var == 1) m = std::make_shared<em::SupervisedMStep<S>>(ITER_, tol, L);
    else m = std::make_shared<em::SemiSupervisedMStep<S>>(ITER_, tol, L);
    std::shared_ptr<events::EventDispatcherInterface> disp = std::make_shared<events::EventDispatcher>();
    std::vector<S> rep;
    disp->add_listener([&](std::shared_ptr<events::Event> ev) {
        if (ev->id() == "MaximizationProgressEvent") rep.push_back(std::static_pointer_cast<events::MaximizationProgressEvent<S>>(ev)->likelihood());
    });
    m->set_event_dispatcher(disp);
    auto model = std::make_shared<parameters::SupervisedModelParameters<S>>(alpha, beta, eta);
    const int drop = EPOCHS_ > 1 ? vp_choice("drop", 2) : 0;
    for (int ep = 0; ep < EPOCHS_; ep++) {
        const int D = ep ? D_ - drop : D_;      // a later epoch may see fewer documents
        const bool last = ep + 1 == EPOCHS_;
        MX b = MX::Zero(K, V);
        std::vector<VX> x; std::vector<MX> vv; std::vector<int> y;
        MX eta0 = model->eta;
        for (int d = 0; d < D; d++) {
            DocIn in = make_doc(K, V, C, alpha, false, var == 2 ? -1 : 0, false, 0.0625, d == 0 && last && ITER_ == 0);
            m->doc_m_step(in.doc, in.vp, model);
            int N = 0;
            for (int v = 0; v < V; v++) N += in.X[v];
            for (int k = 0; k < K; k++) for (int v = 0; v < V; v++) b(k, v) += in.X[v] * in.phi(k, v);
            if (in.y < 0) continue;
            VX z = VX::Zero(K);
            for (int k = 0; k < K; k++) for (int v = 0; v < V; v++) z[k] += in.X[v] * in.phi(k, v);
            S s = 0;
            for (int k = 0; k < K; k++) s += z[k];
            if (var == 1) s = N;
            if (N) for (int k = 0; k < K; k++) z[k] /= s;
            MX q = MX::Zero(K, K);
            if (N) for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) for (int v = 0; v < V; v++) q(i, j) += in.X[v] * in.phi(i, v) * in.X[v] * in.phi(j, v) / ((S)N * N);
            x.push_back(z); vv.push_back(q); y.push_back(in.y);
        }
        vp_assume(!y.empty());
        bool mass = true;
        for (int k = 0; k < K; k++) { S s = 0; for (int v = 0; v < V; v++) s += b(k, v); if (!(s > 0)) mass = false; }
        vp_assume(mass);
        std::vector<S> w = balanced(y);
        auto J = [&](const MX &e, int dk, int dc) { return objective(x, var == 1 ? &vv : nullptr, y, w, L, e, dk, dc); };
#if ITER_ > 0
        // the objective is a cross entropy plus a penalty, hence positive; not started from a stationary point
        vp_assume(J(eta0, 0, 0).v > 0.0009765625);
        S g2 = 0;
        for (int k = 0; k < K; k++) for (int c = 0; c < C; c++) { S g = J(eta0, k, c).d; g2 += g * g; }
        vp_assume(g2 > 0.0009765625);
#endif
        rep.clear();
        m->m_step(model);
        for (int k = 0; k < K; k++) {
            S s = 0;
            for (int v = 0; v < V; v++) s += b(k, v);
            for (int v = 0; v < V; v++) vp_assert_eq(model->beta(k, v), b(k, v) / s, TOL, "beta = normalised expected counts");
        }
        vp_assert(rep.size() >= 1 && rep.size() <= ITER_ + 1, "at most the requested number of iterations");
        vp_assert_eq(rep[0], -J(eta0, 0, 0).v, TOL * 10, "reported likelihood is the objective over this epoch's documents");
        if (ITER_ == 0) { for (int k = 0; k < K; k++) for (int c = 0; c < C; c++) vp_assert_eq(model->eta(k, c), eta0(k, c), 0, "no iteration leaves eta alone"); continue; }
#if ITER_ > 1
        vp_assert_eq(rep.back(), -J(model->eta, 0, 0).v, TOL * 100, "reported likelihood is the objective at the new eta");
        for (size_t i = 1; i < rep.size(); i++) {
            vp_assert_le(rep[i - 1], rep[i], TOL, "the objective never gets worse");
            const S gain = (rep[i] - rep[i - 1]) / -rep[i];            // relative to the new value
            if (i + 1 < rep.size()) vp_assert_le(tol, gain, TOL * 10, "the descent stops when it no longer improves");
            else if (i < ITER_) vp_assert_le(gain, tol, TOL * 10, "the descent goes on while it improves");
        }
        vp_assert(rep.size() > 1, "the descent makes its first step");
#endif
#if ITER_ == 1
        if (rep.size() == 2) {
            vp_assert_eq(rep[1], -J(model->eta, 0, 0).v, TOL * 10, "reported likelihood is the objective at the new eta");
            vp_assert_le(rep[0], rep[1], TOL * 10, "the objective never gets worse");
            // the step is along the negative gradient: cross products vanish
            S g00 = J(eta0, 0, 0).d, s00 = eta0(0, 0) - model->eta(0, 0);
            for (int k = 0; k < K; k++) for (int c = 0; c < C; c++) vp_assert_eq((eta0(k, c) - model->eta(k, c)) * g00, s00 * J(eta0, k, c).d, TOL * 100, "the step follows the gradient of the objective");
        }
#endif
    }
}
