// Maximization steps made by the builder work as ones constructed with the same settings.
#include "ldaplusplus/LDABuilder.hpp"
#include "mstep_common.hpp"
static const char *LB = "a step works as one constructed with the same settings";
static void same(const MX &a, const MX &b) {
    vp_assert(a.rows() == b.rows() && a.cols() == b.cols(), LB);
    for (int j = 0; j < a.cols(); j++) for (int i = 0; i < a.rows(); i++) vp_assert_eq(a(i, j), b(i, j), 0, LB);
}
extern "C" void vp_main() {
    const int K = vp_concrete(K_), V = vp_concrete(V_), C = vp_concrete(NC_);
    VX alpha = vp::vec<S>("alpha", K, 0.0625, 4);
    MX beta = vp::mat<S>("beta", K, V, 0.0625, 1), eta = vp::mat<S>("eta", K, C, VAR_ == 1 || VAR_ == 2 ? 0.0625 : -2, 2);
    const S a = (S)vp_real("a", 1.0625, 3), b = (S)vp_real("b", 0.0625, 0.9375), c = (S)vp_real("c", 0.0625, 0.9375), w = (S)vp_real("w", 0.0625, 0.9375);
    LDABuilder<S> q;
    std::shared_ptr<em::MStepInterface<S> > x, y;
    VX cw = vp::vec<S>("cw", C, 0.0625, 4);
    switch (VAR_) {
        case 0: x = q.get_classic_m_step(); y = std::make_shared<em::UnsupervisedMStep<S> >(); break;
        case 1: x = q.get_multinomial_supervised_m_step(a); y = std::make_shared<em::MultinomialSupervisedMStep<S> >(a); break;
        case 2: x = q.get_correspondence_supervised_m_step(a); y = std::make_shared<em::CorrespondenceSupervisedMStep<S> >(a); break;
        case 3: x = q.get_fast_supervised_m_step(0, b, w); y = std::make_shared<em::FastSupervisedMStep<S> >(0, b, w); break;
        case 4: x = q.get_supervised_m_step(0, b, w); y = std::make_shared<em::SupervisedMStep<S> >(0, b, w); break;
        case 5: x = q.get_semi_supervised_m_step(0, b, w); y = std::make_shared<em::SemiSupervisedMStep<S> >(0, b, w); break;
        case 6: x = q.get_fast_supervised_online_m_step((size_t)C, a, 1, b, c, w); y = std::make_shared<em::FastOnlineSupervisedMStep<S> >((size_t)C, a, 1, b, c, w); break;
        case 7: x = q.get_fast_supervised_online_m_step(cw, a, 1, b, c, w); y = std::make_shared<em::FastOnlineSupervisedMStep<S> >(cw, a, 1, b, c, w); break;
        case 8: { std::vector<S> v; for (int i = 0; i < C; i++) v.push_back(cw[i]); x = q.get_fast_supervised_online_m_step(v, a, 1, b, c, w); y = std::make_shared<em::FastOnlineSupervisedMStep<S> >(cw, a, 1, b, c, w); break; }
    }
    std::vector<DocIn> ds;
    for (int d = 0; d < D_; d++) ds.push_back(make_doc(K, V, C, alpha, VAR_ == 2, 0, false));
    std::shared_ptr<parameters::SupervisedModelParameters<S> > m[2];
    std::vector<S> rep[2];
    for (int i = 0; i < 2; i++) {
        auto s = i ? y : x;
        m[i] = std::make_shared<parameters::SupervisedModelParameters<S> >(alpha, beta, eta);
        s->get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> ev) {
            if (ev->id() == "MaximizationProgressEvent") rep[i].push_back(std::static_pointer_cast<events::MaximizationProgressEvent<S>>(ev)->likelihood());
        });
        for (auto &d : ds) s->doc_m_step(d.doc, d.vp, m[i]);
        s->m_step(m[i]);
    }
    same(m[0]->beta, m[1]->beta); same(m[0]->eta, m[1]->eta); same(m[0]->alpha, m[1]->alpha);
    vp_assert(rep[0].size() == rep[1].size(), LB);
    for (size_t i = 0; i < rep[0].size(); i++) vp_assert_eq(rep[0][i], rep[1][i], 0, LB);
}
