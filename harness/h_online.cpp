// Online supervised M step: the model changes exactly once per full minibatch,
// by the documented beta blend and momentum SGD step on that minibatch.
#include "mstep_common.hpp"
#ifndef MB_
#define MB_ 2
#endif
extern "C" void vp_main() {
    const int K = vp_concrete(K_), V = vp_concrete(V_), C = vp_concrete(NC_);
    VX alpha = vp::vec<S>("alpha", K, 0.0625, 4);
    MX beta = vp::mat<S>("beta", K, V, 0.0625, 1), eta = vp::mat<S>("eta", K, C, -2, 2);
    S L = (S)vp_real("L", 0, 1), mom = (S)vp_real("mom", 0, 1), lr = (S)vp_real("lr", 0, 1), bw = (S)vp_real("bw", 0, 1);
    std::vector<S> cw;
    std::shared_ptr<em::MStepInterface<S>> m;
#if WEIGHTS_
    VX w = vp::vec<S>("w", C, 0.0625, 4);
    for (int c = 0; c < C; c++) cw.push_back(w[c]);
    m = std::make_shared<em::FastOnlineSupervisedMStep<S>>(w, L, MB_, mom, lr, bw);
#else
    for (int c = 0; c < C; c++) cw.push_back(1);
    m = std::make_shared<em::FastOnlineSupervisedMStep<S>>((size_t)C, L, MB_, mom, lr, bw);
#endif
    std::shared_ptr<events::EventDispatcherInterface> disp = std::make_shared<events::EventDispatcher>();
    std::vector<S> rep;
    disp->add_listener([&](std::shared_ptr<events::Event> ev) {
        if (ev->id() == "MaximizationProgressEvent") rep.push_back(std::static_pointer_cast<events::MaximizationProgressEvent<S>>(ev)->likelihood());
    });
    m->set_event_dispatcher(disp);
    auto model = std::make_shared<parameters::SupervisedModelParameters<S>>(alpha, beta, eta);
    MX b = MX::Zero(K, V), vel = MX::Zero(K, C);
    std::vector<VX> x; std::vector<int> y;
    size_t updates = 0;
    const int at = vp_choice("flush", D_ + 1);
    for (int d = 0; d <= D_; d++) {
        MX eta0 = model->eta, beta0 = model->beta;
        if (d == at) {
            // the end of an epoch may fall inside a minibatch: nothing happens
            m->m_step(model);
            for (int k = 0; k < K; k++) {
                for (int v = 0; v < V; v++) vp_assert_eq(model->beta(k, v), beta0(k, v), 0, "no update inside a minibatch");
                for (int c = 0; c < C; c++) vp_assert_eq(model->eta(k, c), eta0(k, c), 0, "no update inside a minibatch");
            }
        }
        if (d == D_) break;
        DocIn in = make_doc(K, V, C, alpha, false, 0, false, 0.0625, d == 1);
        m->doc_m_step(in.doc, in.vp, model);
        VX z = VX::Zero(K); S s = 0;
        for (int k = 0; k < K; k++) for (int v = 0; v < V; v++) { b(k, v) += in.X[v] * in.phi(k, v); z[k] += in.X[v] * in.phi(k, v); }
        for (int k = 0; k < K; k++) s += z[k];
        if (in.X.sum()) for (int k = 0; k < K; k++) z[k] /= s;
        x.push_back(z); y.push_back(in.y);
        if ((int)x.size() < MB_) {
            for (int k = 0; k < K; k++) {
                for (int v = 0; v < V; v++) vp_assert_eq(model->beta(k, v), beta0(k, v), 0, "no update inside a minibatch");
                for (int c = 0; c < C; c++) vp_assert_eq(model->eta(k, c), eta0(k, c), 0, "no update inside a minibatch");
            }
            vp_assert(rep.size() == updates, "one report per minibatch");
            continue;
        }
        updates++;
        vp_assert(rep.size() == updates, "one report per minibatch");
        for (int k = 0; k < K; k++) {
            S r = 0;
            for (int v = 0; v < V; v++) r += b(k, v);
            for (int v = 0; v < V; v++) vp_assert_eq(model->beta(k, v), bw * beta0(k, v) + (1 - bw) * (b(k, v) / r), TOL, "beta is the weighted blend");
            vp_assert_eq(model->alpha[k], alpha[k], 0, "alpha unchanged");
            for (int c = 0; c < C; c++) {
                S g = objective(x, nullptr, y, cw, L, eta0, k, c).d;
                vel(k, c) = mom * vel(k, c) - lr * g;
                vp_assert_eq(model->eta(k, c), eta0(k, c) + vel(k, c), TOL * 10, "eta takes one momentum SGD step on the minibatch");
            }
        }
        vp_assert_eq(rep[updates - 1], -objective(x, nullptr, y, cw, L, model->eta, 0, 0).v, TOL * 10, "reported likelihood is that of the minibatch");
        x.clear(); y.clear();
    }
}
