// Expectation steps are shared by the workers: running one step object on two
// documents at the same time gives what running it on each alone gives.
#include "estep_common.hpp"
#include <thread>
#include <mutex>
#ifndef LIK_
#define LIK_ 1
#endif
extern "C" void vp_main() {
    In in;
    const int var = VAR_ == SEMI ? FAST : VAR_;
    make(in, var, 0.0625, var == MULTI || var == CORR ? 0.0625 : -2, var == MULTI || var == CORR ? 1 : 2);
    std::shared_ptr<corpus::Document> docs[2];
    if (var == UNSUP) { docs[0] = in.doc; Eigen::VectorXi o = Eigen::VectorXi::Constant(in.V, 1); docs[1] = std::make_shared<corpus::EigenDocument>(o); }
    else { docs[0] = in.corp->at(0); docs[1] = in.corp->at(1); }
#if VAR_ == 5
    docs[1] = std::make_shared<corpus::ClassificationDecorator>(docs[1], -1);
#endif
    int n = 0;
    auto tsd = std::make_shared<events::ThreadSafeEventDispatcher>();
    std::shared_ptr<events::EventDispatcherInterface> disp = tsd;
    disp->add_listener([&](std::shared_ptr<events::Event> ev) {
        vp_assert(ev->id() == "ExpectationProgressEvent", "only expectation progress is reported");
        n++;
    });
    auto build = [&]() -> std::shared_ptr<em::EStepInterface<S>> {
#if VAR_ == 5
        return std::make_shared<em::SemiSupervisedEStep<S>>(step(FAST, in, LIK_), step(UNSUP, in, LIK_));
#else
        return step(var, in, LIK_);
#endif
    };
    auto e = build();
    e->set_event_dispatcher(disp);
    std::shared_ptr<parameters::Parameters> out[2];
    std::thread a([&]() { out[0] = e->doc_e_step(docs[0], in.model); });
    std::thread b([&]() { out[1] = e->doc_e_step(docs[1], in.model); });
    a.join(); b.join();
    tsd->process_events();
    vp_assert(n == 2, "one progress event per document");
    // alone, one after the other
    for (int d = 0; d < 2; d++) {
        auto alone = build();
        std::shared_ptr<events::EventDispatcherInterface> dd = std::make_shared<events::EventDispatcher>();
        alone->set_event_dispatcher(dd);
        auto r = std::static_pointer_cast<parameters::VariationalParameters<S>>(alone->doc_e_step(docs[d], in.model));
        auto o = std::static_pointer_cast<parameters::VariationalParameters<S>>(out[d]);
        for (int k = 0; k < in.K; k++) {
            vp_assert_eq(o->gamma[k], r->gamma[k], TOL, "gamma is that of the document alone");
            for (int v = 0; v < in.V; v++) vp_assert_eq(o->phi(k, v), r->phi(k, v), TOL, "phi is that of the document alone");
        }
    }
}
