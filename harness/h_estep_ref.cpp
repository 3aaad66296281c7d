// The variational parameters an E step returns are those of the documented
// update equations, iterated until the documented stopping rule.
#include "estep_common.hpp"
extern "C" void vp_main() {
    In in;
    const int var = VAR_;
    make(in, var, 0.0625, var == MULTI || var == CORR ? 0.0625 : -2, var == MULTI || var == CORR ? 1 : 2);
    auto e = step(var, in, 0);
    e->set_event_dispatcher(std::make_shared<events::SameThreadEventDispatcher>());
    // the weight of the supervised part changes with the passes over the corpus
    const int passes = vp_choice("passes", 3);
    for (int i = 0; i < passes; i++) e->e_step();
#ifdef DECAY_
    const S w0 = in.w;
    in.w = 1;
    for (int i = 0; i < passes; i++) in.w *= w0;
#endif
    auto out = std::static_pointer_cast<parameters::VariationalParameters<S>>(e->doc_e_step(in.doc, in.model));
    Ref r = reference(var, in);
    vp_assert(out->phi.rows() == in.K && out->phi.cols() == in.V && out->gamma.rows() == in.K, "shape");
    for (int v = 0; v < in.V; v++) for (int k = 0; k < in.K; k++) vp_assert_eq(out->phi(k, v), r.phi(k, v), TOL, "phi follows the update equation");
    for (int k = 0; k < in.K; k++) vp_assert_eq(out->gamma[k], r.gamma[k], TOL, "gamma follows the update equation");
    if (var == CORR) {
        auto o = std::static_pointer_cast<parameters::SupervisedCorrespondenceVariationalParameters<S>>(out);
        vp_assert(o->tau.rows() == in.V, "shape");
        for (int v = 0; v < in.V; v++) vp_assert_eq(o->tau[v], r.tau[v], TOL, "tau follows the update equation");
    }
}
