// Semi-supervised E step: unlabelled documents (class < 0) go to the
// unsupervised step and labelled ones to the supervised step, results and
// events pass through unchanged and exactly once.
#include "vp.hpp"
#include "ldaplusplus/Document.hpp"
#include "ldaplusplus/Parameters.hpp"
#include "ldaplusplus/events/Events.hpp"
#include "ldaplusplus/events/ProgressEvents.hpp"
#include "ldaplusplus/em/SemiSupervisedEStep.hpp"
using namespace ldaplusplus;
typedef SCALAR S;
struct Stub : em::EStepInterface<S> {
    int calls = 0, ends = 0;
    const corpus::Document *doc = nullptr; const parameters::Parameters *par = nullptr;
    std::shared_ptr<parameters::Parameters> last;
    S lik;
    std::shared_ptr<parameters::Parameters> doc_e_step(const std::shared_ptr<corpus::Document> d, const std::shared_ptr<parameters::Parameters> p) override {
        calls++; doc = d.get(); par = p.get();
        lik = (S)vp_real("lik", -4, 4);
        this->get_event_dispatcher()->template dispatch<events::ExpectationProgressEvent<S>>(lik);
        last = std::make_shared<parameters::VariationalParameters<S>>();
        return last;
    }
    void e_step() override { ends++; }
};
extern "C" void vp_main() {
    auto sup = std::make_shared<Stub>(), uns = std::make_shared<Stub>();
    // the steps keep the dispatcher they come with
    std::shared_ptr<events::EventDispatcherInterface> dsup = std::make_shared<events::EventDispatcher>(), duns = std::make_shared<events::EventDispatcher>();
    sup->set_event_dispatcher(dsup); uns->set_event_dispatcher(duns);
    int got = 0; S lik = 0; std::shared_ptr<events::Event> lastEv;
    std::shared_ptr<events::EventDispatcherInterface> out = std::make_shared<events::EventDispatcher>();
    out->add_listener([&](std::shared_ptr<events::Event> ev) { got++; lastEv = ev; if (ev->id() == "ExpectationProgressEvent") lik = std::static_pointer_cast<events::ExpectationProgressEvent<S>>(ev)->likelihood(); });
    auto par = std::make_shared<parameters::SupervisedModelParameters<S>>();
    int ns = 0, nu = 0;
    {
        em::SemiSupervisedEStep<S> semi(sup, uns);
        semi.set_event_dispatcher(out);
        for (int i = 0; i < D_; i++) {
            const int y = vp_int("y", -2147483647 - 1, 2147483647);
            auto doc = std::make_shared<corpus::ClassificationDecorator>(std::make_shared<corpus::EigenDocument>(Eigen::VectorXi(Eigen::VectorXi::Constant(2, 1))), y);
            got = 0;
            auto r = semi.doc_e_step(doc, par);
            auto &s = y < 0 ? uns : sup;
            (y < 0 ? nu : ns)++;
            vp_assert(sup->calls == ns && uns->calls == nu, "each document goes to exactly one step, chosen by its label");
            vp_assert(s->doc == doc.get() && s->par == par.get(), "the step sees the document and the model");
            vp_assert(r == s->last, "the result is the step's result");
            vp_assert(got == 1 && lastEv->id() == "ExpectationProgressEvent", "events are forwarded exactly once");
            vp_assert_eq(lik, s->lik, 0, "events are forwarded unchanged");
        }
        semi.e_step();
        vp_assert(sup->ends == 1 && uns->ends == 1, "the end of the pass reaches both steps");
    }
    got = 0;
    // after destruction nothing is forwarded any more
    dsup->dispatch<events::ExpectationProgressEvent<S>>((S)1);
    duns->dispatch<events::ExpectationProgressEvent<S>>((S)1);
    vp_assert(got == 0, "no forwarding after destruction");
}
