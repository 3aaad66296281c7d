// Canonical multivariate Laurent polynomials with rational coefficients over
// "atoms" (symbolic inputs, 1/S, exp(..), |..|, ...).  Every symbolic floating
// point value of the program is one of these, so algebraically equal
// expressions share one representation before they ever reach the SMT solver.
#pragma once
#include <gmpxx.h>
#include <vector>
#include <map>
#include <unordered_map>
#include <cstdint>
#include <cmath>
#include <string>
#include <algorithm>
#include <stdexcept>

struct PolyTooBig : std::runtime_error { PolyTooBig() : std::runtime_error("polynomial too big") {} };

typedef std::vector<std::pair<uint32_t, int>> Mono;   // sorted by atom, exponent != 0

struct MonoLess {
    bool operator()(const Mono &a, const Mono &b) const { return a < b; }
};

struct Poly {
    std::vector<std::pair<Mono, mpq_class>> t;         // sorted by Mono
    size_t hash = 0;
    uint32_t id = 0;
    void *z3 = nullptr;                                 // cached Z3_ast
    bool isConst() const { return t.empty() || (t.size() == 1 && t[0].first.empty()); }
    mpq_class constant() const { return t.empty() ? mpq_class(0) : t[0].second; }
    bool isZero() const { return t.empty(); }
};

static size_t hmix(size_t h, size_t v) { return (h ^ v) * 0x9E3779B97F4A7C15ull + (h >> 29); }

struct PolyTable {
    std::unordered_multimap<size_t, Poly *> tab;
    uint32_t next = 1;
    size_t maxTerms = 60000;

    Poly *intern(std::vector<std::pair<Mono, mpq_class>> &&t) {
        size_t h = 1469598103934665603ull;
        for (auto &x : t) {
            for (auto &f : x.first) { h = hmix(h, f.first); h = hmix(h, (size_t)(int64_t)f.second); }
            h = hmix(h, mpz_get_ui(x.second.get_num_mpz_t()) * 31 + mpz_sgn(x.second.get_num_mpz_t()));
            h = hmix(h, mpz_get_ui(x.second.get_den_mpz_t()));
        }
        auto r = tab.equal_range(h);
        for (auto it = r.first; it != r.second; ++it)
            if (it->second->t == t) return it->second;
        Poly *p = new Poly;
        p->t = std::move(t);
        p->hash = h;
        p->id = next++;
        tab.emplace(h, p);
        return p;
    }
    Poly *fromMap(std::map<Mono, mpq_class> &m) {
        std::vector<std::pair<Mono, mpq_class>> t;
        t.reserve(m.size());
        for (auto &x : m) if (x.second != 0) t.emplace_back(x.first, x.second);
        if (t.size() > maxTerms) throw PolyTooBig();
        return intern(std::move(t));
    }
    Poly *cst(const mpq_class &q) {
        std::vector<std::pair<Mono, mpq_class>> t;
        if (q != 0) t.emplace_back(Mono(), q);
        return intern(std::move(t));
    }
    Poly *cst(double d) { return cst(mpq_class(d)); }
    Poly *atom(uint32_t a, int e = 1) {
        std::vector<std::pair<Mono, mpq_class>> t;
        Mono m;
        if (e) m.emplace_back(a, e);
        t.emplace_back(m, mpq_class(1));
        return intern(std::move(t));
    }
    static Mono mmul(const Mono &a, const Mono &b) {
        Mono r;
        r.reserve(a.size() + b.size());
        size_t i = 0, j = 0;
        while (i < a.size() || j < b.size()) {
            if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
            else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
            else {
                int e = a[i].second + b[j].second;
                if (e) r.emplace_back(a[i].first, e);
                i++; j++;
            }
        }
        return r;
    }
    Poly *lin(Poly *a, const mpq_class &ca, Poly *b, const mpq_class &cb) {   // ca*a + cb*b
        std::vector<std::pair<Mono, mpq_class>> t;
        t.reserve(a->t.size() + b->t.size());
        size_t i = 0, j = 0;
        while (i < a->t.size() || j < b->t.size()) {
            if (j == b->t.size() || (i < a->t.size() && a->t[i].first < b->t[j].first)) {
                t.emplace_back(a->t[i].first, a->t[i].second * ca); i++;
            } else if (i == a->t.size() || b->t[j].first < a->t[i].first) {
                t.emplace_back(b->t[j].first, b->t[j].second * cb); j++;
            } else {
                mpq_class c = a->t[i].second * ca + b->t[j].second * cb;
                if (c != 0) t.emplace_back(a->t[i].first, c);
                i++; j++;
            }
        }
        if (ca == 0 || cb == 0) t.erase(std::remove_if(t.begin(), t.end(), [](auto &x) { return x.second == 0; }), t.end());
        if (t.size() > maxTerms) throw PolyTooBig();
        return intern(std::move(t));
    }
    Poly *add(Poly *a, Poly *b) { return lin(a, 1, b, 1); }
    Poly *sub(Poly *a, Poly *b) { return lin(a, 1, b, -1); }
    Poly *scale(Poly *a, const mpq_class &c) {
        if (c == 1) return a;
        if (c == 0) return cst(mpq_class(0));
        auto t = a->t;
        for (auto &x : t) x.second *= c;
        return intern(std::move(t));
    }
    Poly *neg(Poly *a) { return scale(a, -1); }
    Poly *mul(Poly *a, Poly *b) {
        if (a->isConst()) return scale(b, a->constant());
        if (b->isConst()) return scale(a, b->constant());
        if (a->t.size() * b->t.size() > 40 * maxTerms) throw PolyTooBig();
        if (a->t.size() == 1 && b->t.size() == 1) {
            std::vector<std::pair<Mono, mpq_class>> t;
            t.emplace_back(mmul(a->t[0].first, b->t[0].first), a->t[0].second * b->t[0].second);
            return intern(std::move(t));
        }
        std::map<Mono, mpq_class> m;
        for (auto &x : a->t)
            for (auto &y : b->t) m[mmul(x.first, y.first)] += x.second * y.second;
        return fromMap(m);
    }
    Poly *pow(Poly *a, int e) {
        Poly *r = cst(mpq_class(1));
        while (e-- > 0) r = mul(r, a);
        return r;
    }
};
