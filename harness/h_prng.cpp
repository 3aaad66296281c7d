// Threads drawing from one ThreadSafePRNG (also from copies of it) share out
// the numbers of the underlying generator, each number once.
#include "vp.hpp"
#include <random>
#include <thread>
#include "ldaplusplus/utils.hpp"
#ifndef N_
#define N_ 2
#endif
using namespace ldaplusplus;
typedef math_utils::ThreadSafePRNG<std::default_random_engine> PRNG;
extern "C" void vp_main() {
    const int seed = vp_concrete(11);
    PRNG g(seed), h(g);
    PRNG *use[2] = {&g, COPY_ ? &h : &g};
    PRNG::result_type got[2][N_];
    std::thread a([&]() { for (int i = 0; i < N_; i++) got[0][i] = (*use[0])(); });
    std::thread b([&]() { for (int i = 0; i < N_; i++) got[1][i] = (*use[1])(); });
    a.join(); b.join();
    std::default_random_engine r(seed);
    // the two sequences interleave to the sequence of the generator
    int p[2] = {0, 0};
    for (int i = 0; i < 2 * N_; i++) {
        PRNG::result_type v = r();
        bool x = p[0] < N_ && got[0][p[0]] == v, y = p[1] < N_ && got[1][p[1]] == v;
        vp_assert(x || y, "every number of the generator is drawn exactly once, in order");
        if (x) p[0]++; else p[1]++;
    }
    vp_assert(g() == r(), "the generator continues where the threads stopped");
}
