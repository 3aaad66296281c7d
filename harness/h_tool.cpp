// The command line tools do what the library does with the options they were
// given: TOOL_ 0 lda, 1 slda, 2 fslda; CMD_ 0 train, 1 transform, 2 online_train;
// INIT_ 0 seeded, 1 random, 2 continue, 3 continue from an unsupervised model.
#include "vp.hpp"
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <stdexcept>
#define main tool_main
#if TOOL_ == 0
#include VP_TOOL(lda)
#elif TOOL_ == 1
#include VP_TOOL(slda)
#else
#include VP_TOOL(fslda)
#endif
#undef main
#include "ldaplusplus/LDABuilder.hpp"
#include "ldaplusplus/LDA.hpp"
#include "ldaplusplus/NumpyFormat.hpp"
#include "applications/EpochProgress.hpp"
#include "applications/ExpectationProgress.hpp"
#include "applications/lda_io.hpp"
#include "applications/MaximizationProgress.hpp"
#include "applications/SnapshotEvery.hpp"
#ifndef D_
#define D_ 2
#endif
#ifndef V_
#define V_ 2
#endif
#ifndef IT_
#define IT_ 2
#endif
#ifndef EI_
#define EI_ 2
#endif
#ifndef MI_
#define MI_ 2
#endif
#ifndef SYMM_
#define SYMM_ 0
#endif
// FEAT_: what is arbitrary - 0 options of the E step, 1 of the M step, 2 passes, snapshots and reports, 4 the penalty; with 0 also everything at its default
#define OUT_ (FEAT_ == 2)
typedef Eigen::MatrixXd MX;
typedef Eigen::VectorXd VX;
typedef parameters::SupervisedModelParameters<double> SMP;

// ---- arguments
static std::vector<std::string> args_;
static std::string num(long v) { return std::to_string(v); }
static void ival(const char *n, long v) { args_.push_back(std::string(n) + "=" + num(v)); }
#ifdef VP_SYMBOLIC
extern "C" double vp_opt[10];
static int nopt;
static std::string rtext(float v) { vp_opt[nopt] = v; std::string s("$"); s.push_back((char)('0' + nopt)); nopt++; return s; }
static std::string out() { return static_cast<std::stringstream &>(std::cout).str(); }
static void out_start() { static_cast<std::stringstream &>(std::cout).str(""); }
#else
static std::string rtext(float v) { char b[40]; snprintf(b, 40, "%.9g", v); return b; }
static std::stringstream cap;
static void out_start() { cap.str(""); std::cout.rdbuf(cap.rdbuf()); }
static std::string out() { return cap.str(); }
#endif
static float rval(const char *opt, double lo, double hi, double fix, bool free) {
    float v = free ? (float)vp_real(opt + 2, lo, hi) : (float)fix;
    args_.push_back(std::string(opt) + "=" + rtext(v));
    return v;
}
static void same_output(const std::string &a, const std::string &b) {
#ifdef VP_SYMBOLIC
    vp_assert(a.size() == b.size(), "the tool reports what the library reports");
    for (size_t i = 0; i < a.size(); i++) {
        vp_assert(a[i] == b[i], "the tool reports what the library reports");
        if (a[i] == '#') { double x, y; memcpy(&x, &a[i + 1], 8); memcpy(&y, &b[i + 1], 8); vp_assert_eq(x, y, 1e-4, "the tool reports what the library reports"); i += 8; }
    }
#else
    std::istringstream p(a), q(b); std::string s, t;
    while (true) {
        bool x = (bool)(p >> s), y = (bool)(q >> t);
        vp_assert(x == y, "the tool reports what the library reports");
        if (!x) break;
        char *e, *f; double u = strtod(s.c_str(), &e), v = strtod(t.c_str(), &f);
        if (!*e && !*f) vp_assert_eq(u, v, 1e-4, "the tool reports what the library reports");
        else vp_assert(s == t, "the tool reports what the library reports");
    }
#endif
}
static bool exists(const std::string &p) { std::ifstream f(p); return f.good(); }
static void same(const MX &a, const MX &b, const char *l) {
    vp_assert(a.rows() == b.rows() && a.cols() == b.cols(), l);
    for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) vp_assert_eq(a(i, j), b(i, j), 1e-6, l);
}
static void same_model(const std::string &p, const std::shared_ptr<SMP> &m) {
    auto q = io::load_lda(p);
    same(q->alpha, m->alpha, "the saved model is the one the library trains");
    same(q->beta, m->beta, "the saved model is the one the library trains");
    if (TOOL_) same(q->eta, m->eta, "the saved model is the one the library trains");
}
static int tool() {
    std::vector<char *> v; v.push_back((char *)"tool");
    for (auto &s : args_) v.push_back(&s[0]);
    v.push_back(0);
    return tool_main((int)v.size() - 1, &v[0]);
}
extern "C" void vp_main() {
    const int D = vp_concrete(D_), V = vp_concrete(V_), K = vp_concrete(2 + vp_choice("K", (INIT_ >= 2 || CMD_ == 1 || FEAT_ == 2) ? 1 : 2)), C = 2;
    Eigen::MatrixXi X(V, D); Eigen::VectorXi y(D);
    for (int d = 0; d < D; d++) { for (int v = 0; v < V; v++) X(v, d) = (3 * d + 2 * v + 1) % 4; y[d] = (D - 1 - d) % C; }
    {
        std::ofstream f("data", std::ios::out | std::ios::binary);
        f << numpy_format::NumpyOutput<int>(X) << numpy_format::NumpyOutput<int>(y);
    }
    VX a(K); MX b(K, V), e(K, C);
    for (int k = 0; k < K; k++) {
        a[k] = SYMM_ ? vp_real("alpha", 0.25, 2) : 0.5 + 0.25 * k;
        for (int v = 0; v < V; v++) b(k, v) = SYMM_ ? vp_real("beta", 0.0625, 1) : (1.0 + k + 2 * v) / (V * (1 + k) + V * (V - 1));
        for (int c = 0; c < C; c++) e(k, c) = SYMM_ ? vp_real("eta", -1, 1) : 0.25 * (k - c);
    }
    auto start = std::make_shared<SMP>(a, b, e);
    io::save_lda("start", std::make_shared<SMP>(a, b, e));
    const bool quiet = !OUT_ || vp_choice("quiet", 2);
    const bool DEF_ = FEAT_ == 0 && INIT_ != 1 && vp_choice("defaults", 2);
    LDABuilder<double> B;
    args_.push_back(CMD_ == 0 ? "train" : CMD_ == 1 ? "transform" : "online_train");
    if (quiet) args_.push_back(CMD_ == 1 && vp_choice("short", 2) ? "-q" : "--quiet");
    const int W = 1 + (CMD_ == 1 ? vp_choice("workers", 2) : 0);
    if (!DEF_ || W > 1) ival("--workers", W);
    B.set_workers(W);
    long ei = TOOL_ ? 10 : 30; float et = TOOL_ ? 1e-4f : 1e-3f;
    if (!DEF_) { ival("--e_step_iterations", ei = FEAT_ ? 1 : vp_choice("ei", EI_ + 1)); et = rval("--e_step_tolerance", 0, 2, 0.5, FEAT_ == 0); }
    if (CMD_ == 1) {
        B.set_classic_e_step(ei, et, 0.0);
        B.initialize_topics_from_model(start).initialize_eta_from_model(start);
    } else {
        const long it = FEAT_ == 2 ? vp_choice("iterations", IT_ + 1) : 1, rs = FEAT_ ? 1 : vp_choice("random_state", 2);
        float cl = OUT_ ? (float)vp_choice("cl", 2) : 0.f;
        ival("--iterations", it);
        if (rs) ival("--random_state", rs);
        if (OUT_) { args_.push_back(std::string("--compute_likelihood=") + (cl ? "1.0" : "0.0")); }
        B.set_iterations(it);
#if TOOL_ == 0
        B.set_classic_e_step(ei, et, cl, rs);
#elif TOOL_ == 1
        long fp = 20, mi = 200; float mt = 1e-4f, L = 0.05f;
        if (!DEF_) { ival("--fixed_point_iterations", fp = FEAT_ ? 1 : vp_choice("fp", 2)); ival("--m_step_iterations", mi = FEAT_ == 0 ? 0 : FEAT_ == 1 ? vp_choice("mi", MI_ + 1) : 1); mt = rval("--m_step_tolerance", 0, 2, 0.25, FEAT_ == 1); L = rval("--regularization_penalty", 0, 1, 0.5, FEAT_ == 4 || (FEAT_ == 1 && CMD_ == 2)); }
        B.set_supervised_e_step(ei, et, fp, cl, rs);
        B.set_supervised_m_step(mi, mt, L);
#else
        float sw = 1.f, L = 0.05f;
        if (!DEF_) { sw = rval("--supervised_weight", 0, 2, 1.5, FEAT_ == 0); L = rval("--regularization_penalty", 0, 1, 0.5, FEAT_ == 4 || (FEAT_ == 1 && CMD_ == 2)); }
        B.set_fast_supervised_e_step(ei, et, sw, cl, rs);
#if CMD_ == 0
        long mi = 200; float mt = 1e-4f;
        if (!DEF_) { ival("--m_step_iterations", mi = FEAT_ == 0 ? 0 : FEAT_ == 1 ? vp_choice("mi", MI_ + 1) : 1); mt = rval("--m_step_tolerance", 0, 2, 0.25, FEAT_ == 1); }
        B.set_fast_supervised_m_step(mi, mt, L);
#else
        long bs = 128; float mo = 0.9f, lr = 0.01f, bw = 0.9f;
        if (!DEF_) { ival("--batch_size", bs = D + (FEAT_ == 1 ? vp_choice("bs", 2) : 0)); mo = rval("--momentum", 0, 1, 0.5, FEAT_ == 1); lr = rval("--learning_rate", 0, 1, 0.125, FEAT_ == 1); bw = rval("--beta_weight", 0, 1, 0.75, FEAT_ == 1); }
        // every class counts the same: the weight of a class is inverse to its frequency
        VX w(y.maxCoeff() + 1);
        for (int c = 0; c < w.rows(); c++) { int n = 0; for (int d = 0; d < D; d++) n += y[d] == c; w[c] = (double)D / (w.rows() * n); }
        B.set_fast_supervised_online_m_step(w, L, bs, mo, lr, bw);
#endif
#endif
        if (INIT_ < 2) ival("--topics", K);
        if (INIT_ == 0) { if (vp_choice("explicit", 2)) args_.push_back("--initialize_seeded"); B.initialize_topics_seeded(X, K, 30, rs); }
        else if (INIT_ == 1) { args_.push_back("--initialize_random"); B.initialize_topics_random(V, K, rs); }
        else { args_.push_back(INIT_ == 2 ? "--continue=start" : "--continue_from_unsupervised=start"); B.initialize_topics_from_model(start); }
        if (INIT_ == 2) B.initialize_eta_from_model(start); else B.initialize_eta_zeros(TOOL_ ? C : 1);
    }
    LDA<double> lda = B;
    if (!quiet) {
        lda.get_event_dispatcher()->add_listener<EpochProgress>();
        lda.get_event_dispatcher()->add_listener<ExpectationProgress>();
        if (CMD_ != 1 && TOOL_) lda.get_event_dispatcher()->add_listener<MaximizationProgress>();
    }
    if (CMD_ == 1) {
        args_.push_back("start"); args_.push_back("data"); args_.push_back("output");
        out_start();
        const MX r = lda.transform(X);
        const std::string o = out();
        out_start();
        tool();
        same_output(out(), o);
        MX q;
        { std::ifstream f("output", std::ios::in | std::ios::binary); numpy_format::NumpyInput<double> ni; f >> ni; q = ni; }
        same(q, r, "the output is what the library computes");
        same_model("start", start);
    } else {
        const int snap = FEAT_ == 2 ? vp_choice("snapshot", 3) : 0;
        if (snap) { ival("--snapshot_every", snap); lda.get_event_dispatcher()->add_listener<SnapshotEvery>("ref", snap); }
        args_.push_back("data"); args_.push_back("model");
        out_start();
        if (TOOL_) lda.fit(X, y); else lda.fit(X);
        const std::string o = out();
        out_start();
        tool();
        same_output(out(), o);
        if (quiet) vp_assert(out().empty(), "quiet tools print nothing");
        auto m = std::make_shared<SMP>();
        auto p = lda.model_parameters();
        m->alpha = std::static_pointer_cast<parameters::ModelParameters<double> >(p)->alpha;
        m->beta = std::static_pointer_cast<parameters::ModelParameters<double> >(p)->beta;
        if (TOOL_) m->eta = std::static_pointer_cast<SMP>(p)->eta;
        same_model("model", m);
        for (int i = 1; i <= IT_ + 1; i++) {
            std::string n = "_00"; n.push_back((char)('0' + i));
            vp_assert(exists("model" + n) == (snap && exists("ref" + n)), "snapshots as asked for");
            if (exists("model" + n)) { auto s = io::load_lda("ref" + n); same_model("model" + n, s); }
        }
    }
}
