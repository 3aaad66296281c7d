// Corpora: after any number of shuffles (any random bits) a corpus is a
// permutation of the same (words, class) pairs; priors are class frequencies.
#include "vp.hpp"
#include "ldaplusplus/Document.hpp"
using namespace ldaplusplus::corpus;
#ifndef V_
#define V_ 2
#endif
#ifndef D_
#define D_ 3
#endif
#ifndef CLASS_HI_
#define CLASS_HI_ 2
#endif
#ifndef SHUF_
#define SHUF_ 1
#endif
extern "C" void vp_main() {
    const int V = vp_concrete(V_), D = vp_concrete(D_);
    Eigen::MatrixXi X = vp::imat("X", V, D, -1000000, 1000000);
    // the first word tells the documents apart
    for (int d = 0; d < D; d++) X(0, d) = 100 + d;
    Eigen::VectorXi y = vp::ivec("y", D, CLASS_LO_, CLASS_HI_);
#if CLASS_LO_ < 0 && !defined(NOLABEL_)
    // at least one label
    vp_assume(y[0] >= 0);
#endif
    // every outcome of the shuffle is explored symbolically; natively the seed varies
    const int seed = vp_symbolic() ? 3 : (int)vp_bits("nativeseed", 12);
    std::shared_ptr<EigenCorpus> c1; std::shared_ptr<EigenClassificationCorpus> c2;
    std::shared_ptr<Corpus> c;
#if CLASSIF_
    c = c2 = std::make_shared<EigenClassificationCorpus>(X, y, seed);
#else
    c = c1 = std::make_shared<EigenCorpus>(X, seed);
#endif
    for (int s = 0; s <= SHUF_; s++) {
        if (s) c->shuffle();
        vp_assert(c->size() == (size_t)D, "size unchanged by shuffling");
        int seen[D_ + 1] = {0};
        for (int i = 0; i < D; i++) {
            auto doc = c->at(i);
            const Eigen::VectorXi &w = doc->get_words();
            vp_assert(w.rows() == V, "document shape");
            int id = w[0] - 100;
            vp_assert(id >= 0 && id < D, "documents come from the data");
            if (!s) vp_assert(id == i, "initial order is the data order");
            seen[id]++;
            for (int v = 0; v < V; v++) vp_assert(w[v] == X(v, id), "words of the document");
#if CLASSIF_
            vp_assert(std::static_pointer_cast<ClassificationDocument>(doc)->get_class() == y[id], "words and class stay paired");
            vp_assert(doc->get_corpus().get() == c.get(), "document knows its corpus");
#endif
            // repeated access is stable
            vp_assert(c->at(i)->get_words()[0] - 100 == id, "access does not reorder");
        }
        for (int d = 0; d < D; d++) vp_assert(seen[d] == 1, "every document exactly once");
    }
#if CLASSIF_ && !defined(NOLABEL_)
    int mx = 0, lab = 0;
    for (int d = 0; d < D; d++) { if (y[d] > mx) mx = y[d]; if (y[d] >= 0) lab++; }
    float tot = 0;
    for (int k = 0; k <= mx; k++) {
        int n = 0;
        for (int d = 0; d < D; d++) if (y[d] == k) n++;
        float p = c2->get_prior(k);
        vp_assert_eq(p * lab, n, 1e-4, "prior = class frequency among the labelled documents");
        tot += p;
    }
    vp_assert_eq(tot, 1, 1e-4, "priors sum to one");
#endif
}
