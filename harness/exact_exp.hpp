// Included first in one of the native replays: fast_exp is the exponential, so
// that what fails does not do so because of the steps of its table (P18).
#include <cmath>
namespace ldaplusplus { namespace math_utils {
template <typename Scalar> static inline Scalar fast_exp(Scalar x);
template <> inline double fast_exp<double>(double x) { return std::exp(x); }
template <> inline float fast_exp<float>(float x) { return std::exp(x); }
} }
