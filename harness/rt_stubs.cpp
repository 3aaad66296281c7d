// Bodies for the parts of libstdc++/libc that live in the shared library, so
// that the symbolic executor can run through them.  Compiled to bitcode only;
// the native replay uses the real library.
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <new>
#include <string>
#include <stdexcept>
#include <typeinfo>
#include <functional>
#include <vector>
#include <list>
#include <map>
#include <unordered_map>
#include <system_error>
#include <chrono>
#include <pthread.h>
#include <future>
#include <mutex>
#include <condition_variable>

template class std::basic_string<char>;

extern "C" {
void *malloc(size_t);
void free(void *);
int memcmp(const void *a, const void *b, size_t n) {
    const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
    for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if (!*a) break; } return 0; }
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = (const unsigned char *)s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void *)(p + i); return 0; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
static int vpDigit(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
int *__errno_location();
long strtol(const char *s, char **e, int base) {
    const char *p = s;
    while (isspace(*p)) p++;
    bool neg = false;
    if (*p == '-' || *p == '+') { neg = *p == '-'; p++; }
    const char *st = p;
    if (base == 0) base = 10;
    unsigned long v = 0; bool ov = false;
    unsigned long lim = neg ? 0x8000000000000000ul : 0x7fffffffffffffffl;
    while (vpDigit(*p) < base) {
        unsigned d = vpDigit(*p);
        if (v > (lim - d) / base) ov = true; else v = v * base + d;
        p++;
    }
    if (e) *e = (char *)(p == st ? s : p);
    if (ov) { *__errno_location() = 34; return neg ? (long)0x8000000000000000ul : 0x7fffffffffffffffl; }
    return neg ? (long)(0 - v) : (long)v;
}
// functions of libm in terms of those the executor knows
double log(double); double exp(double); double sqrt(double); double lgamma(double); double pow(double, double);
double log1p(double x) { return log(1 + x); }
float log1pf(float x) { return log(1 + (double)x); }
double expm1(double x) { return exp(x) - 1; }
float expm1f(float x) { return exp((double)x) - 1; }
double log2(double x) { return log(x) / 0.693147180559945309417; }
float log2f(float x) { return log2(x); }
double log10(double x) { return log(x) / 2.30258509299404568402; }
float log10f(float x) { return log10(x); }
double exp2(double x) { return exp(x * 0.693147180559945309417); }
float exp2f(float x) { return exp2(x); }
double exp10(double x) { return exp(x * 2.30258509299404568402); }
double tanh(double x) { double e = exp(2 * x); return (e - 1) / (e + 1); }
float tanhf(float x) { return tanh(x); }
double cbrt(double x) { return x < 0 ? -exp(log(-x) / 3) : x > 0 ? exp(log(x) / 3) : 0; }
double hypot(double x, double y) { return sqrt(x * x + y * y); }
float hypotf(float x, float y) { return hypot(x, y); }
double fdim(double x, double y) { return x > y ? x - y : 0; }
double ldexp(double x, int e) { for (; e > 0; e--) x *= 2; for (; e < 0; e++) x /= 2; return x; }
double modf(double x, double *i) { *i = __builtin_trunc(x); return x - *i; }
double fmod(double x, double y) { return x - y * __builtin_trunc(x / y); }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strstr(const char *s, const char *t) { size_t n = strlen(t); for (;; s++) { if (!strncmp(s, t, n)) return (char *)s; if (!*s) return 0; } }
static pthread_mutex_t vpOnceM; static pthread_cond_t vpOnceC;
int pthread_once(pthread_once_t *o, void (*f)()) {
    pthread_mutex_lock(&vpOnceM);
    if (*o == 0) {
        *o = 1; pthread_mutex_unlock(&vpOnceM);
        f();
        pthread_mutex_lock(&vpOnceM); *o = 2; pthread_cond_broadcast(&vpOnceC);
    } else while (*o != 2) pthread_cond_wait(&vpOnceC, &vpOnceM);
    pthread_mutex_unlock(&vpOnceM);
    return 0;
}
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isalpha(int c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
// "$0".."$9" stands for the text of a number the harness chose symbolically
double vp_opt[10];
double vp_strtod(const char *, int);
size_t vp_strtod_len(const char *);
double strtod(const char *s, char **e) {
    if (s[0] == '$') { if (e) *e = (char *)s + 2; return vp_opt[s[1] - '0']; }
    if (e) *e = (char *)s + vp_strtod_len(s);
    return vp_strtod(s, 64);
}
float strtof(const char *s, char **e) {
    if (s[0] == '$') { if (e) *e = (char *)s + 2; return (float)vp_opt[s[1] - '0']; }
    if (e) *e = (char *)s + vp_strtod_len(s);
    return (float)vp_strtod(s, 32);
}
long double strtold(const char *s, char **e) { return strtod(s, e); }
unsigned long strtoul(const char *s, char **e, int base) { return (unsigned long)strtol(s, e, base); }
long long strtoll(const char *s, char **e, int base) { return strtol(s, e, base); }
}

// ---- exceptions
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }

static const char *vpDup(const char *s) { size_t n = strlen(s); char *p = (char *)malloc(n + 1); for (size_t i = 0; i <= n; i++) p[i] = s[i]; return p; }
__cow_string::__cow_string() { _M_p = vpDup(""); }
__cow_string::__cow_string(const std::string &s) { _M_p = vpDup(s.c_str()); }
__cow_string::__cow_string(const char *s, size_t n) { char *p = (char *)malloc(n + 1); for (size_t i = 0; i < n; i++) p[i] = s[i]; p[n] = 0; _M_p = p; }
__cow_string::__cow_string(const __cow_string &o) noexcept { _M_p = vpDup(o._M_p); }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { if (this != &o) { free((void *)_M_p); _M_p = vpDup(o._M_p); } return *this; }
__cow_string::~__cow_string() { free((void *)_M_p); }
__cow_string::__cow_string(__cow_string &&o) noexcept { _M_p = o._M_p; o._M_p = vpDup(""); }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { const char *t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }

#define VP_ERR(C, B) \
    C::C(const std::string &s) : B(s) {} \
    C::C(const char *s) : B(s) {} \
    C::~C() noexcept {}
logic_error::logic_error(const std::string &s) : exception(), _M_msg(s) {}
logic_error::logic_error(const char *s) : exception(), _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error &) noexcept = default;
logic_error::logic_error(logic_error &&) noexcept = default;
logic_error &logic_error::operator=(const logic_error &) noexcept = default;
logic_error &logic_error::operator=(logic_error &&) noexcept = default;
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return reinterpret_cast<const char *const &>(_M_msg); }
runtime_error::runtime_error(const std::string &s) : exception(), _M_msg(s) {}
runtime_error::runtime_error(const char *s) : exception(), _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error &) noexcept = default;
runtime_error::runtime_error(runtime_error &&) noexcept = default;
runtime_error &runtime_error::operator=(const runtime_error &) noexcept = default;
runtime_error &runtime_error::operator=(runtime_error &&) noexcept = default;
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return reinterpret_cast<const char *const &>(_M_msg); }
VP_ERR(invalid_argument, logic_error)
VP_ERR(domain_error, logic_error)
VP_ERR(length_error, logic_error)
VP_ERR(out_of_range, logic_error)
VP_ERR(range_error, runtime_error)
VP_ERR(overflow_error, runtime_error)
VP_ERR(underflow_error, runtime_error)

void __throw_bad_exception() { throw exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_system_error(int) { throw runtime_error("system_error"); }

// ---- clocks: time passes, by an unspecified amount
namespace chrono { inline namespace _V2 {
static long vpTicks = 1000000000;
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(vpTicks += 1000)); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(vpTicks += 1000)); }
} }
// ---- call_once
__thread void *__once_callable; __thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
// ---- futures
__future_base::_Result_base::_Result_base() {}
__future_base::_Result_base::~_Result_base() {}
future_error::~future_error() noexcept {}
const char *future_error::what() const noexcept { return "std::future_error"; }
void __throw_future_error(int) { throw runtime_error("future_error"); }
static mutex vpFutexM; static condition_variable vpFutexC;
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned *a, unsigned v, bool, chrono::seconds, chrono::nanoseconds) {
    unique_lock<mutex> l(vpFutexM);
    while (__atomic_load_n(a, __ATOMIC_SEQ_CST) == v) vpFutexC.wait(l);
    return true;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned *a, unsigned v, bool h, chrono::seconds s, chrono::nanoseconds n) { return _M_futex_wait_until(a, v, h, s, n); }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned *) { lock_guard<mutex> l(vpFutexM); vpFutexC.notify_all(); }
// ---- list nodes
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *const n = _M_next, *const p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept {
    if (this != last) {
        last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first;
        _List_node_base *const tmp = _M_prev;
        _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
    }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
    if (x._M_next != &x) {
        if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
    } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
// ---- hash tables: any growing bucket policy will do
static size_t vpPrime(size_t n) { static const size_t p[] = {1, 2, 5, 11, 23, 47, 97, 199, 409, 823}; for (size_t x : p) if (x >= n) return x; return n | 1; }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t p = vpPrime(n); _M_next_resize = (size_t)(p * _M_max_load_factor); if (!_M_next_resize) _M_next_resize = 1; return p; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
    if (ne + ni > _M_next_resize) {
        size_t want = ne + ni + 1;
        if (want >= nb) { size_t g = nb * 2 + 1; return pair<bool, size_t>(true, _M_next_bkt(want > g ? want : g)); }
        _M_next_resize = nb;
    }
    return pair<bool, size_t>(false, 0);
}
}
// ---- ordered trees: searching only needs the order, so they are left unbalanced
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;   // end(); the root is kept black
    if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
    x->_M_parent = p; x->_M_left = x->_M_right = 0; x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;                       // also makes leftmost = x when p is the header
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) noexcept {
    _Rb_tree_node_base *&root = h._M_parent;
    if (h._M_left == z) h._M_left = z->_M_right ? z->_M_right : z->_M_parent;
    if (h._M_left != &h) while (h._M_left->_M_left && h._M_left != z->_M_parent) h._M_left = h._M_left->_M_left;
    if (h._M_right == z) {
        _Rb_tree_node_base *m = z->_M_left;
        if (m) while (m->_M_right) m = m->_M_right;
        h._M_right = m ? m : z->_M_parent;
    }
    _Rb_tree_node_base *s;
    if (!z->_M_left) s = z->_M_right;
    else if (!z->_M_right) s = z->_M_left;
    else {                                    // hang the right subtree below the maximum of the left one
        _Rb_tree_node_base *m = z->_M_left;
        while (m->_M_right) m = m->_M_right;
        m->_M_right = z->_M_right; z->_M_right->_M_parent = m;
        s = z->_M_left;
    }
    if (s) s->_M_parent = z->_M_parent;
    if (root == z) root = s;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = s;
    else z->_M_parent->_M_right = s;
    return z;
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { size_t h = seed; const unsigned char *b = (const unsigned char *)p; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull; return h; }
}
