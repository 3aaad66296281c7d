// exp() of the harness oracles in the native replay.  The library mixes
// std::exp and its table based fast_exp (relative error about 1e-3, property
// P18); a counterexample counts only if it fails against either of them.
#include <cmath>
#include <cstdlib>
#include <cstring>
#ifndef SCALAR
#define SCALAR double
#endif
static bool plain() {
    static const bool p = getenv("VP_EXP") && !strcmp(getenv("VP_EXP"), "plain");
    return p;
}
#ifdef VP_PLAIN_EXP
extern "C" double vp_exp(double x) { return std::exp(x); }
#else
#include <Eigen/Core>
#include "ldaplusplus/utils.hpp"
extern "C" double vp_exp(double x) { return plain() ? std::exp(x) : (double)ldaplusplus::math_utils::fast_exp<SCALAR>((SCALAR)x); }
#endif
