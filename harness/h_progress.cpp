// Reports of the command line tools and the class weights of online training.
#include "vp.hpp"
#include <cmath>
#include <cstring>
#include <iostream>
#include <sstream>
#include "ldaplusplus/events/ProgressEvents.hpp"
#include "applications/EpochProgress.hpp"
#include "applications/ExpectationProgress.hpp"
#include "applications/MaximizationProgress.hpp"
#include "applications/utils.hpp"
using namespace ldaplusplus;
#ifdef VP_SYMBOLIC
static std::string out() { return static_cast<std::stringstream &>(std::cout).str(); }
static void out_start() { static_cast<std::stringstream &>(std::cout).str(""); }
#else
static std::stringstream cap;
static void out_start() { cap.str(""); std::cout.rdbuf(cap.rdbuf()); }
static std::string out() { return cap.str(); }
#endif
// the last real number printed, if any, and how many lines there are
static bool number(const std::string &s, double &v) {
#ifdef VP_SYMBOLIC
    for (size_t i = 0; i + 8 < s.size(); i++) if (s[i] == '#') { memcpy(&v, &s[i + 1], 8); return true; }
    return false;
#else
    size_t p = s.rfind(": ");
    if (p == std::string::npos) return false;
    v = strtod(s.c_str() + p + 2, 0); return true;
#endif
}
static bool has(const std::string &s, const std::string &t) { return s.find(t) != std::string::npos; }
extern "C" void vp_main() {
#if MODE_ == 0
    EpochProgress p;
    for (int e = 0; e < PASSES_; e++) {
        const int n = vp_choice("docs", 3);
        double sum = 0; int cnt = 0;
        for (int d = 0; d < n; d++) {
            double v; int k = vp_choice("kind", 3);
            if (k == 0) { v = vp_real("likelihood", -100, 50); if (vp_branch(v < 0)) { sum += v; cnt++; } }
            else v = k == 1 ? NAN : -INFINITY;
            out_start();
            p.on_event(std::make_shared<events::ExpectationProgressEvent<double> >(v));
            std::string t("Iteration "); t.push_back((char)('1' + e));
            vp_assert(has(out(), t) == (d == 0), "the iteration is announced once");
        }
        if (vp_choice("maximization", 2)) p.on_event(std::make_shared<events::MaximizationProgressEvent<double> >(-3.0));
        out_start();
        p.on_event(std::make_shared<events::EpochProgressEvent<double> >(std::shared_ptr<parameters::Parameters>()));
        double v = 0;
        const bool printed = number(out(), v);
        vp_assert(printed == (cnt > 0), "a mean likelihood is reported exactly when there is one");
        if (cnt) vp_assert_eq(v, sum / cnt, 1e-4, "the mean of the finite negative likelihoods of the pass");
    }
#elif MODE_ == 1
    const int n = 1 + vp_choice("every", 3);
    ExpectationProgress p(n);
    for (int e = 0; e < PASSES_; e++) {
        const int docs = vp_choice("docs", 6);
        for (int d = 1; d <= docs; d++) {
            out_start();
            p.on_event(std::make_shared<events::ExpectationProgressEvent<double> >(-1.0));
            std::string t; t.push_back((char)('0' + d));
            vp_assert(d % n ? out().empty() : has(out(), t), "every n-th document is reported");
        }
        p.on_event(std::make_shared<events::EpochProgressEvent<double> >(std::shared_ptr<parameters::Parameters>()));
    }
    ExpectationProgress q;
    for (int d = 1; d <= 200; d++) {
        out_start();
        q.on_event(std::make_shared<events::ExpectationProgressEvent<double> >(-1.0));
        vp_assert(d % 100 ? out().empty() : has(out(), d == 100 ? "100" : "200"), "every n-th document is reported");
    }
#elif MODE_ == 2
    MaximizationProgress p;
    for (int e = 0; e < PASSES_; e++) {
        for (int d = vp_choice("steps", 3); d; d--) {
            const double v = vp_real("likelihood", -100, 50);
            double w = 0;
            out_start();
            p.on_event(std::make_shared<events::MaximizationProgressEvent<double> >(v));
            vp_assert(number(out(), w), "every maximization is reported");
            vp_assert_eq(v, w, 1e-4, "the reported likelihood is that of the event");
        }
        out_start();
        p.on_event(std::make_shared<events::ExpectationProgressEvent<double> >(-1.0));
        p.on_event(std::make_shared<events::EpochProgressEvent<double> >(std::shared_ptr<parameters::Parameters>()));
        double w;
        vp_assert(!number(out(), w), "nothing else is reported");
    }
#else
    const int D = 1 + vp_choice("D", D_);
    Eigen::VectorXi y(D);
    for (int d = 0; d < D; d++) y[d] = vp_int("y", 0, NC_ - 1);
    const Eigen::VectorXd w = utils::create_class_weights(y);
    int C = 0;
    for (int d = 0; d < D; d++) if (vp_branch(y[d] + 1 > C)) C = vp_concrete(y[d]) + 1;
    vp_assert(w.rows() == C, "one weight per class");
    double total = 0; bool all = true;
    for (int c = 0; c < C; c++) {
        int n = 0;
        for (int d = 0; d < D; d++) n += vp_branch(y[d] == c);
        if (n) { vp_assert_eq(w[c] * n * C, D, 1e-6, "the weight of a class is inverse to its frequency"); total += w[c] * n; } else all = false;
    }
    if (all) vp_assert_eq(total, D, 1e-6, "weights keep the size of the data");
#endif
}
