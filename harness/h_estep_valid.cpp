// Whatever the model and the document, an E step returns a valid variational
// posterior, leaves its inputs alone and reports progress exactly once.
#include "estep_common.hpp"
extern "C" void vp_main() {
    In in;
    const int var = VAR_;
    make(in, var, 0, var == MULTI || var == CORR ? 0.0625 : -2, var == MULTI || var == CORR ? 1 : 2);
    // words of the document have positive probability under every topic; absent words may have none at all
    for (int v = 0; v < in.V; v++) if (in.X[v]) for (int k = 0; k < in.K; k++) vp_assume(in.beta(k, v) > 0.0625 / (1LL << BSCALE_));
#if VAR_ == 4
    for (int v = 0; v < in.V; v++) for (int k = 0; k < in.K; k++) vp_assume(in.beta(k, v) > 0.0625 / (1LL << BSCALE_));
#endif
    int events = 0;
    std::shared_ptr<events::EventDispatcherInterface> disp = std::make_shared<events::EventDispatcher>();
    disp->add_listener([&](std::shared_ptr<events::Event> ev) { events++; });
    auto e = step(var, in, 0);
    e->set_event_dispatcher(disp);
    Eigen::VectorXi X0 = in.doc->get_words();
    auto out = std::static_pointer_cast<parameters::VariationalParameters<S>>(e->doc_e_step(in.doc, in.model));
    vp_assert(events == 1, "one progress event per document");
    int N = 0;
    for (int v = 0; v < in.V; v++) { vp_assert(in.doc->get_words()[v] == X0[v], "document untouched"); N += X0[v]; }
    auto m = std::static_pointer_cast<parameters::ModelParameters<S>>(in.model);
    for (int k = 0; k < in.K; k++) {
        vp_assert_eq(m->alpha[k], in.alpha[k], 0, "model untouched");
        for (int v = 0; v < in.V; v++) vp_assert_eq(m->beta(k, v), in.beta(k, v), 0, "model untouched");
        if (var != UNSUP) for (int c = 0; c < in.C; c++) vp_assert_eq(std::static_pointer_cast<parameters::SupervisedModelParameters<S>>(in.model)->eta(k, c), in.eta(k, c), 0, "model untouched");
    }
    vp_assert(out->phi.rows() == in.K && out->phi.cols() == in.V && out->gamma.rows() == in.K, "shape");
    for (int v = 0; v < in.V; v++) {
        S s = 0;
        for (int k = 0; k < in.K; k++) {
            vp_assert(vp_is_finite(out->phi(k, v)), "phi finite");
            vp_assert_le(0, out->phi(k, v), 1e-9, "phi non-negative");
            s += out->phi(k, v);
        }
        if (X0[v]) vp_assert_eq(s, 1, TOL, "phi of a word in the document sums to one");
    }
    S sa = 0, sg = 0;
    for (int k = 0; k < in.K; k++) {
        S g = in.alpha[k];
        for (int v = 0; v < in.V; v++) if (X0[v]) g += X0[v] * out->phi(k, v);
        vp_assert(vp_is_finite(out->gamma[k]), "gamma finite");
        vp_assert_eq(out->gamma[k], g, TOL, "gamma = alpha + expected counts");
        vp_assert_le(in.alpha[k], out->gamma[k], TOL, "gamma >= alpha");
        sa += in.alpha[k]; sg += out->gamma[k];
    }
    vp_assert_eq(sg, sa + N, TOL, "gamma mass = alpha mass + document length");
}
