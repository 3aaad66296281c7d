// Harness interface.  Compiled to bitcode the vp_* functions are primitives of
// the symbolic executor; compiled natively (native_rt.cpp) they read the values
// of a model so that a counterexample replays against the real code.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <string>
#include <functional>
#include <memory>
#include <vector>
#include <Eigen/Core>

extern "C" {
double vp_real(const char *name, double lo, double hi);
int vp_int(const char *name, int lo, int hi);
uint64_t vp_bits(const char *name, int width);
int vp_choice(const char *name, int n);
void vp_assume(bool c);
void vp_assert(bool c, const char *label);
// native tolerance `tol` is relative to 1+max(|a|,|b|); symbolically exact
void vp_assert_eq(double a, double b, double tol, const char *label);
void vp_assert_le(double a, double b, double tol, const char *label);
void vp_assert_lt(double a, double b, double tol, const char *label);
void vp_assert_bits(uint64_t a, uint64_t b, const char *label);
double vp_digamma(double x);
double vp_exp(double x);
int vp_symbolic();
int vp_is_finite(double x);
int vp_tid();
int vp_branch(bool c);
int vp_concrete(int v);
void vp_show(const char *n, double v);
void vp_yield();
double log(double);
double lgamma(double);
}

namespace vp {
template <class S> using Vec = Eigen::Matrix<S, Eigen::Dynamic, 1>;
template <class S> using Mat = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;

// KNOWN_=n: only every n-th entry of the inputs is symbolic (n=0: none), the
// others are fixed, varied values; this affords larger sizes
#ifdef KNOWN_
inline unsigned knownNext() { static unsigned c = 20170831u; c = c * 1103515245u + 12345u; return (c >> 16) & 0x7fff; }
inline bool isKnown() { static int i = 0; i++; return KNOWN_ == 0 || i % (KNOWN_ + 0 ? KNOWN_ : 1) != 0; }
inline double real(const char *n, double lo, double hi) { return isKnown() ? lo + (hi - lo) * (1 + knownNext() % 62) / 64 : vp_real(n, lo, hi); }
inline int integer(const char *n, int lo, int hi) { if (!isKnown()) return vp_int(n, lo, hi); const unsigned r = knownNext(); return lo <= 0 && r % 4 == 0 ? 0 : lo + (int)((r / 4) % (unsigned)(hi - lo + 1)); }
inline int choice(const char *n, int k) { if (!isKnown()) return vp_choice(n, k); return (int)(knownNext() / 8 % (unsigned)k); }
enum { Known = 1 };
#else
enum { Known = 0 };
inline int choice(const char *n, int k) { return vp_choice(n, k); }
inline double real(const char *n, double lo, double hi) { return vp_real(n, lo, hi); }
inline int integer(const char *n, int lo, int hi) { return vp_int(n, lo, hi); }
#endif
template <class S> Mat<S> mat(const char *n, int r, int c, double lo, double hi) {
    Mat<S> m(r, c);
    for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) m(i, j) = static_cast<S>(real(n, lo, hi));
    return m;
}
template <class S> Vec<S> vec(const char *n, int r, double lo, double hi) {
    Vec<S> m(r);
    for (int i = 0; i < r; i++) m[i] = static_cast<S>(real(n, lo, hi));
    return m;
}
inline Eigen::VectorXi ivec(const char *n, int r, int lo, int hi) {
    Eigen::VectorXi m(r);
    for (int i = 0; i < r; i++) m[i] = integer(n, lo, hi);
    return m;
}
inline Eigen::MatrixXi imat(const char *n, int r, int c, int lo, int hi) {
    Eigen::MatrixXi m(r, c);
    for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) m(i, j) = integer(n, lo, hi);
    return m;
}
}
