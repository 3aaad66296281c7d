// The likelihood an E step reports is the variational bound of its model at
// the variational parameters it returns (or NaN when told not to compute it).
#include "estep_common.hpp"
static S lg(S x) { return (S)log(x + (S)1e-44); }
extern "C" void vp_main() {
    In in;
    const int var = VAR_;
    make(in, var, 0.0625, var == MULTI || var == CORR ? 0.0625 : -2, var == MULTI || var == CORR ? 1 : 2);
    int N = 0, last = -1;
    for (int v = 0; v < in.V; v++) { N += in.X[v]; if (in.X[v]) last = v; }
    if (var == CORR) vp_assume(N > 0);              // its bound has a term log(1/N)
    const int want = vp_choice("compute", 2);
    std::vector<S> rep;
    std::shared_ptr<events::EventDispatcherInterface> disp = std::make_shared<events::EventDispatcher>();
    disp->add_listener([&](std::shared_ptr<events::Event> ev) { rep.push_back(std::static_pointer_cast<events::ExpectationProgressEvent<S>>(ev)->likelihood()); });
    auto e = step(var, in, (S)want);
    e->set_event_dispatcher(disp);
    auto out = std::static_pointer_cast<parameters::VariationalParameters<S>>(e->doc_e_step(in.doc, in.model));
    vp_assert(rep.size() == 1, "one report per document");
    vp_assert(vp_is_finite(rep[0]) == want, "a likelihood is reported exactly when asked for");
    if (!want) return;
    const MX &phi = out->phi; const VX &g = out->gamma;
    S sg = 0, sa = 0, L = 0;
    for (int k = 0; k < in.K; k++) { sg += g[k]; sa += in.alpha[k]; }
    L += (S)lgamma(sa) - (S)lgamma(sg);
    for (int k = 0; k < in.K; k++) {
        S t = (S)vp_digamma(g[k]) - (S)vp_digamma(sg);
        L += (in.alpha[k] - 1) * t - (S)lgamma(in.alpha[k]);         // E[log p(theta)]
        L += -(g[k] - 1) * t + (S)lgamma(g[k]);                       // H(theta)
        for (int v = 0; v < in.V; v++) if (in.X[v]) L += in.X[v] * phi(k, v) * (t + lg(in.beta(k, v)) - lg(phi(k, v)));
    }
    if (var == FAST || var == SUP) {
        if (N > 0) for (int v = 0; v < in.V; v++) for (int k = 0; k < in.K; k++) L += in.eta(k, in.y) * phi(k, v) * in.X[v] / N;
        S tot = 0;
        for (int c = 0; c < in.C; c++) {
            S pr = 1;
            for (int v = 0; v < in.V; v++) if (in.X[v]) { S q = 0; for (int k = 0; k < in.K; k++) q += (S)vp_exp(in.eta(k, c) * ((S)in.X[v] / N)) * phi(k, v); pr *= q; }
            tot += pr;
        }
        L -= (S)log(tot);
    } else if (var == MULTI || var == CORR) {
        const S portion = (S)1 / 2;             // the corpus has two documents
        for (int c = 0; c < in.C; c++) for (int k = 0; k < in.K; k++) L += portion * (in.mu - 1) * (S)log(in.eta(k, c));
        L += portion * ((S)lgamma(in.C * in.mu) - in.C * (S)lgamma(in.mu));
        if (var == MULTI) {
            for (int k = 0; k < in.K; k++) for (int v = 0; v < in.V; v++) L += in.X[v] * phi(k, v) * (S)log(in.eta(k, in.y));
            L -= (N - 1) * (S)log((S)in.corp->get_prior(in.y));
        } else {
            const VX &tau = std::static_pointer_cast<parameters::SupervisedCorrespondenceVariationalParameters<S>>(out)->tau;
            for (int v = 0; v < in.V; v++) {
                L -= in.X[v] * tau[v] * lg(tau[v]);
                for (int k = 0; k < in.K; k++) L += in.X[v] * tau[v] * phi(k, v) * (S)log(in.eta(k, in.y));
            }
            L -= (S)log((S)N);
        }
    }
    vp_assert_eq(rep[0], L, 20 * TOL, "the reported likelihood is the bound");
}
