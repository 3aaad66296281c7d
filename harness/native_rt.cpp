// Native side of the harness interface: concrete values come from $VP_MODEL
// ("name value" per line) or, for names it does not give, from a PRNG seeded
// with $VP_SEED.  Exit codes: 0 held, 3 assumption not met, 77 violated.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <random>
#include <fstream>
#include <csignal>
#include <exception>
#include <unistd.h>

static std::map<std::string, std::string> model;
static std::map<std::string, int> cnt;
static std::mt19937_64 rng;
static bool loaded = false, randomize = false, perturb = false;
static int nasserts = 0;
static void load() {
    if (loaded) return;
    loaded = true;
    const char *s = getenv("VP_SEED");
    rng.seed(s ? atoll(s) : 1);
    if (const char *r = getenv("VP_RANDOM")) { randomize = !strcmp(r, "free"); perturb = !strcmp(r, "perturb"); }
    const char *m = getenv("VP_MODEL");
    if (!m) return;
    std::ifstream f(m);
    std::string k, v;
    while (f >> k >> v) model[k] = v;
}
static std::string key(const char *n) {
    load();
    int c = cnt[n]++;
    return c ? std::string(n) + "#" + std::to_string(c) : std::string(n);
}
extern "C" {
void vp_main();
double vp_real(const char *n, double lo, double hi) {
    std::string k = key(n);
    auto it = model.find(k);
    if (it != model.end() && !randomize) {
        double v = strtod(it->second.c_str(), 0);
        if (perturb) {
            double u = std::uniform_real_distribution<double>(-1, 1)(rng), w = std::isfinite(hi - lo) ? (hi - lo) : 1;
            v = v + 0.3 * u * (rng() % 2 ? std::fabs(v) : 0.2 * w);
            v = std::min(hi, std::max(lo, v));
        }
        return v;
    }
    double L = lo, H = hi;
    if (!std::isfinite(L)) L = -8;
    if (!std::isfinite(H)) H = 8;
    if (H - L > 40) { if (L >= 0) H = L + 20; else { L = std::max(L, -10.); H = std::min(H, 10.); } }
    return L + (H - L) * std::uniform_real_distribution<double>(0, 1)(rng);
}
int vp_int(const char *n, int lo, int hi) {
    std::string k = key(n);
    auto it = model.find(k);
    if (it != model.end()) return (int)strtoll(it->second.c_str(), 0, 10);
    return std::uniform_int_distribution<int>(lo, hi)(rng);
}
uint64_t vp_bits(const char *n, int w) {
    std::string k = key(n);
    auto it = model.find(k);
    if (it != model.end()) return strtoull(it->second.c_str(), 0, 10);
    uint64_t v = rng();
    return w >= 64 ? v : v & ((1ull << w) - 1);
}
int vp_choice(const char *n, int k) {
    std::string s = key(n);
    auto it = model.find(s);
    if (it != model.end()) return atoi(it->second.c_str());
    return rng() % k;
}
void vp_assume(bool c) { if (!c) { fflush(stdout); _exit(3); } }
static void fail(const char *l, const std::string &d) {
    fprintf(stderr, "VPFAIL %s %s\n", l, d.c_str());
    fflush(stderr);
    _exit(77);
}
void vp_assert(bool c, const char *l) { nasserts++; if (!c) fail(l, ""); }
static std::string two(double a, double b) { char s[100]; snprintf(s, 100, "[%.17g vs %.17g]", a, b); return s; }
void vp_assert_eq(double a, double b, double tol, const char *l) {
    nasserts++;
    if (a == b) return;
    if (!(std::fabs(a - b) <= tol * (1 + std::max(std::fabs(a), std::fabs(b))))) fail(l, two(a, b));
}
void vp_assert_le(double a, double b, double tol, const char *l) { nasserts++; if (!(a <= b + tol * (1 + std::fabs(b)))) fail(l, two(a, b)); }
void vp_assert_lt(double a, double b, double tol, const char *l) { nasserts++; if (!(a < b + tol * (1 + std::fabs(b)))) fail(l, two(a, b)); }
void vp_assert_bits(uint64_t a, uint64_t b, const char *l) { nasserts++; if (a != b) fail(l, std::to_string(a) + " vs " + std::to_string(b)); }
double vp_digamma(double x) {
    double r = 0;
    while (x < 10) { r -= 1 / x; x += 1; }
    double f = 1 / (x * x);
    return r + std::log(x) - 0.5 / x - f * (1. / 12 - f * (1. / 120 - f * (1. / 252 - f * (1. / 240 - f / 132))));
}
int vp_symbolic() { return 0; }
int vp_is_finite(double x) { return std::isfinite(x); }
int vp_branch(bool c) { return c; }
int vp_concrete(int v) { return v; }
void vp_show(const char *n, double v) { fprintf(stderr, "[show] %s = %.17g\n", n, v); }
}
static void onTerm() {
    try { if (auto e = std::current_exception()) std::rethrow_exception(e); }
    catch (std::exception &e) { fprintf(stderr, "VPFAIL no-unexpected-exception %s\n", e.what()); fflush(stderr); _exit(77); }
    catch (...) {}
    fprintf(stderr, "VPFAIL terminate\n"); fflush(stderr); _exit(77);
}
#ifndef VP_OWN_MAIN
int main() {
    load();
    std::set_terminate(onTerm);
    if (const char *a = getenv("VP_ALARM")) alarm(atoi(a));
    vp_main();
    fprintf(stderr, "VPOK asserts=%d\n", nasserts);
    fflush(stderr);
    _exit(0);
}
#endif
extern "C" {
// without the cooperative scheduler: let real threads interleave
__attribute__((weak)) void vp_yield() { usleep(rand() % 300); }
__attribute__((weak)) int vp_tid() { return 0; }
}
