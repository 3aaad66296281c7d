// Values, atoms, path condition and solver interface.
#pragma once
#include "poly.hpp"
#include <z3.h>
#include <set>
#include <unordered_set>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <random>
#include <functional>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <fcntl.h>
#include <poll.h>
#include <errno.h>
#include <time.h>
#include <atomic>

typedef Z3_ast Ast;

enum K : uint8_t { UNDEF, INT, FPC, SYM, BOOL, POLY, AGG };
struct Val {
    K k = UNDEF;
    uint16_t w = 0;          // bit width (INT,SYM,BOOL) or 32/64 for FP kinds
    union { uint64_t u; double d; Ast a; Poly *p; std::vector<Val> *agg; };
    Val() : u(0) {}
    static Val I(uint64_t v, unsigned w) { Val r; r.k = INT; r.w = w; r.u = w >= 64 ? v : (v & ((1ull << w) - 1)); return r; }
    static Val F(double d, unsigned w) { Val r; r.k = FPC; r.w = w; r.d = d; return r; }
    static Val P(Poly *p, unsigned w) { Val r; r.k = POLY; r.w = w; r.p = p; return r; }
    static Val S(Ast a, unsigned w) { Val r; r.k = SYM; r.w = w; r.a = a; return r; }
    static Val B(Ast a) { Val r; r.k = BOOL; r.w = 1; r.a = a; return r; }
    static Val U(unsigned w) { Val r; r.k = UNDEF; r.w = w; return r; }
    static Val G(std::vector<Val> v) { Val r; r.k = AGG; r.agg = new std::vector<Val>(std::move(v)); return r; }
};

// ---------------------------------------------------------------- shared stats
struct LabelStat { char name[120]; std::atomic<uint64_t> reached, proved, algebra, cand, unknown; };
struct Shared {
    std::atomic<int64_t> running, liveProcs;
    std::atomic<uint64_t> bounded, paths, forks, completed, infeasible, truncated, errors, queries, qsat, qunsat, qunknown, solver_us,
        insts, assertsProved, assertsAlgebra, cands, unknowns, stop, nextPathId, decisionsPoints, crashes, races, assumeEnd, maxWitness, branchUnknown;
    LabelStat labels[256];
    uint8_t fnSeen[1 << 16];
};
extern Shared *SH;

static inline double nowS() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- atoms
enum AKind { A_INPUT, A_INV, A_UF, A_ABS, A_ITE, A_I2R, A_SQRT, A_BITS };
// sign lattice: 2 >0, 1 >=0, 0 unknown, -1 <=0, -2 <0
struct Atom {
    AKind kind;
    std::string name;
    Ast v = nullptr;
    Poly *arg = nullptr, *arg2 = nullptr;
    Ast cond = nullptr;
    int sign = 0;
    bool nonzero = false;
    double lo = 0, hi = 0;
    std::vector<Ast> extra;        // extra definitional facts
};
struct Input { std::string name; int kind; Ast a; double lo, hi; uint32_t atom; int width; std::string sval; };  // kind 0 real 1 int 2 bits 3 concrete choice

struct Sample { std::vector<double> av; std::vector<char> has; std::unordered_map<unsigned, uint64_t> bv; };

struct Sym {
    Z3_context c;
    PolyTable PT;
    std::vector<Atom> atoms;
    std::unordered_map<size_t, std::vector<uint32_t>> atomIndex;
    std::unordered_map<Ast, uint32_t> varAtom;            // z3 const -> atom
    std::unordered_map<Ast, std::pair<int64_t, int64_t>> bvRange;   // leaf variable ranges (signed)
    std::unordered_map<Ast, uint32_t> bvInput;
    std::vector<Input> inputs;
    std::vector<Ast> pc;
    std::vector<std::vector<uint32_t>> pcDeps;
    std::unordered_map<Ast, bool> lits;
    std::unordered_map<Ast, std::vector<uint32_t>> depCache;
    std::vector<Sample> pool;
    std::mt19937_64 rng{12345};
    Z3_sort realS, boolS;
    unsigned rlimit = 3000000, rlimitHard = 40000000;
    int fresh = 0;
    double queryWall = 2, hardWall = 20;

    Sym() {
        Z3_config cfg = Z3_mk_config();
        c = Z3_mk_context(cfg);
        Z3_set_error_handler(c, [](Z3_context c, Z3_error_code e) {
            fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
            abort();
        });
        realS = Z3_mk_real_sort(c);
        boolS = Z3_mk_bool_sort(c);
        pool.resize(48);
    }
    // ---- small helpers
    Ast simp(Ast a) { return Z3_simplify(c, a); }
    Ast mkBV(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(c, v, Z3_mk_bv_sort(c, w)); }
    Ast T() { return Z3_mk_true(c); }
    Ast Fa() { return Z3_mk_false(c); }
    Ast mkNot(Ast a) { return simp(Z3_mk_not(c, a)); }
    Ast mkAnd(std::vector<Ast> v) { return v.empty() ? T() : Z3_mk_and(c, v.size(), v.data()); }
    Ast mkOr(Ast a, Ast b) { Ast v[2] = {a, b}; return simp(Z3_mk_or(c, 2, v)); }
    int isTF(Ast a) { Z3_lbool l = Z3_get_bool_value(c, a); return l == Z3_L_TRUE ? 1 : l == Z3_L_FALSE ? 0 : -1; }
    Ast numeral(const mpq_class &q) { return Z3_mk_numeral(c, q.get_str().c_str(), realS); }
    Ast freshConst(const char *n, Z3_sort s) {
        char b[200];
        snprintf(b, sizeof b, "%s!%d", n, fresh++);
        return Z3_mk_const(c, Z3_mk_string_symbol(c, b), s);
    }
    static bool inVec(const std::vector<uint32_t> &v, uint32_t x) { return std::binary_search(v.begin(), v.end(), x); }

    // ---- atoms
    uint32_t newAtom(Atom a) {
        uint32_t id = atoms.size();
        char b[160];
        snprintf(b, sizeof b, "%s_%u", a.name.c_str(), id);
        a.v = Z3_mk_const(c, Z3_mk_string_symbol(c, b), realS);
        varAtom[a.v] = id;
        atoms.push_back(a);
        return id;
    }
    template <class F> uint32_t findAtom(size_t h, F match, std::function<Atom()> make) {
        for (uint32_t id : atomIndex[h]) if (match(atoms[id])) return id;
        uint32_t id = newAtom(make());
        atomIndex[h].push_back(id);
        return id;
    }
    int signMul(int a, int b) {
        if (a == 0 || b == 0) return 0;
        int s = (a > 0) == (b > 0) ? 1 : -1;
        return s * std::min(std::abs(a), std::abs(b));
    }
    int atomPowSign(const Atom &a, int e) {
        if (e % 2 == 0) return (std::abs(a.sign) == 2 || a.nonzero || e < 0) ? 2 : 1;
        return e < 0 ? (a.sign > 0 ? 2 : a.sign < 0 ? -2 : 0) : a.sign;
    }
    int sign(Poly *p) {
        if (p->isZero()) return 1;
        int s = 0; bool first = true;
        for (auto &t : p->t) {
            int ts = sgn(t.second) > 0 ? 2 : -2;
            for (auto &f : t.first) ts = signMul(ts, atomPowSign(atoms[f.first], f.second));
            if (ts == 0) return 0;
            if (first) { s = ts; first = false; continue; }
            if ((s > 0) != (ts > 0)) return 0;
            s = s > 0 ? std::max(s, ts) : std::min(s, ts);
        }
        return s;
    }
    bool syntNonzero(Poly *p) {
        if (std::abs(sign(p)) == 2) return true;
        if (p->t.size() == 1) {
            for (auto &f : p->t[0].first) {
                auto &a = atoms[f.first];
                if (f.second < 0 || a.nonzero || std::abs(a.sign) == 2) continue;
                return false;
            }
            return true;
        }
        return false;
    }
    // normalise sign/scale: returns p / lead coefficient, lead in *k
    Poly *primitive(Poly *p, mpq_class *k) {
        if (p->isZero()) { *k = 1; return p; }
        *k = p->t[0].second;
        return PT.scale(p, 1 / *k);
    }
    // 1/p, p known non zero on this path
    Poly *inv(Poly *p) {
        if (p->t.size() != 1) return memoFn("inv", p, [&](Poly *q) { return inv0(q); });
        return inv0(p);
    }
    Poly *inv0(Poly *p) {
        if (p->t.size() == 1) {
            std::vector<std::pair<Mono, mpq_class>> t;
            Mono m = p->t[0].first;
            for (auto &f : m) f.second = -f.second;
            t.emplace_back(m, 1 / p->t[0].second);
            // an inverted INV atom is its denominator
            Poly *r = PT.intern(std::move(t));
            return unfoldInvInv(r);
        }
        // factor out common monomial
        Mono g = commonMono(p);
        Poly *q = p;
        Poly *pre = PT.cst(mpq_class(1));
        if (!g.empty()) {
            Mono gi = g;
            for (auto &f : gi) f.second = -f.second;
            std::vector<std::pair<Mono, mpq_class>> t;
            t.emplace_back(gi, mpq_class(1));
            pre = PT.intern(std::move(t));
            q = PT.mul(p, pre);
        }
        mpq_class k;
        q = primitive(q, &k);
        uint32_t id = findAtom(hmix(1, q->id), [&](Atom &a) { return a.kind == A_INV && a.arg == q; }, [&]() {
            Atom a; a.kind = A_INV; a.name = "inv"; a.arg = q; a.nonzero = true;
            int s = sign(q); a.sign = s > 0 ? 2 : s < 0 ? -2 : 0;
            return a; });
        Poly *r = PT.scale(PT.atom(id), 1 / k);
        return unfoldInvInv(PT.mul(r, pre));
    }
    Mono commonMono(Poly *p) {
        Mono g;
        if (p->t.empty()) return g;
        std::map<uint32_t, int> mn;
        for (auto &f : p->t[0].first) mn[f.first] = f.second;
        for (auto &t : p->t) for (auto &f : t.first) if (!mn.count(f.first)) mn[f.first] = std::min(0, f.second);
        for (auto &t : p->t) {
            std::map<uint32_t, int> cur;
            for (auto &f : t.first) cur[f.first] = f.second;
            for (auto &m : mn) { int e = cur.count(m.first) ? cur[m.first] : 0; m.second = std::min(m.second, e); }
        }
        for (auto &m : mn) if (m.second) g.emplace_back(m.first, m.second);
        return g;
    }
    // replace INV(S)^-k by S^k
    Poly *unfoldInvInv(Poly *p) {
        for (;;) {
            uint32_t hit = ~0u;
            for (auto &t : p->t) for (auto &f : t.first) if (f.second < 0 && atoms[f.first].kind == A_INV) hit = f.first;
            if (hit == ~0u) return p;
            Poly *r = PT.cst(mpq_class(0));
            for (auto &t : p->t) {
                Mono m; int k = 0;
                for (auto &f : t.first) if (f.first == hit && f.second < 0) k = -f.second; else m.push_back(f);
                std::vector<std::pair<Mono, mpq_class>> tt; tt.emplace_back(m, t.second);
                Poly *q = PT.intern(std::move(tt));
                if (k) q = PT.mul(q, PT.pow(atoms[hit].arg, k));
                r = PT.add(r, q);
            }
            p = r;
        }
    }
    // Multiply p by denominators until no INV atom / negative exponent is left.
    // *sgnp: 2 if the multiplier is known positive, else 0 (only equality with 0 is preserved).
    Poly *clearDen(Poly *p, int *sgnp, size_t limit) {
        int sg = 2;
        for (int guard = 0; guard < 400; guard++) {
            if (p->t.size() > limit) throw PolyTooBig();
            // negative exponents
            std::map<uint32_t, int> neg; std::set<uint32_t> invs;
            for (auto &t : p->t) for (auto &f : t.first) {
                if (f.second < 0) neg[f.first] = std::min(neg[f.first], f.second);
                else if (atoms[f.first].kind == A_INV) invs.insert(f.first);
            }
            if (!neg.empty()) {
                Mono m;
                for (auto &n : neg) {
                    m.emplace_back(n.first, -n.second);
                    if (n.second % 2) { int s = atoms[n.first].sign; if (s > 0) {} else sg = 0; }
                }
                std::vector<std::pair<Mono, mpq_class>> tt; tt.emplace_back(m, mpq_class(1));
                p = PT.mul(p, PT.intern(std::move(tt)));
                continue;
            }
            if (invs.empty()) { *sgnp = sg; return p; }
            uint32_t a = *invs.rbegin();       // the youngest: may depend on older ones
            int mx = 0;
            for (auto &t : p->t) for (auto &f : t.first) if (f.first == a) mx = std::max(mx, f.second);
            if (mx % 2 && atoms[a].sign <= 0) sg = 0;
            std::map<int, std::map<Mono, mpq_class>> byExp;
            for (auto &t : p->t) {
                Mono m; int e = 0;
                for (auto &f : t.first) if (f.first == a) e = f.second; else m.push_back(f);
                byExp[e][m] += t.second;
            }
            Poly *r = PT.cst(mpq_class(0));
            for (auto &be : byExp) r = PT.add(r, PT.mul(PT.fromMap(be.second), PT.pow(atoms[a].arg, mx - be.first)));
            p = r;
        }
        throw PolyTooBig();
    }
    // ---- fingerprints: value of a rational function at a random point modulo 2^61-1.
    // Different fingerprints => different functions; equal ones are confirmed by clearDen.
    static constexpr uint64_t FP = (1ull << 61) - 1;
    static uint64_t fmul(uint64_t a, uint64_t b) { return (uint64_t)((unsigned __int128)a * b % FP); }
    static uint64_t fpow(uint64_t a, uint64_t e) { uint64_t r = 1; while (e) { if (e & 1) r = fmul(r, a); a = fmul(a, a); e >>= 1; } return r; }
    static uint64_t finv(uint64_t a) { return fpow(a, FP - 2); }
    std::vector<uint64_t> fpAtomV;
    std::unordered_map<Poly *, uint64_t> fpPolyV;
    uint64_t fpq(const mpq_class &q) {
        mpz_class m(std::to_string(FP)), n = q.get_num() % m, d = q.get_den() % m;
        if (n < 0) n += m;
        return fmul(n.get_ui(), finv(d.get_ui()));
    }
    uint64_t fpAtom(uint32_t id) {
        if (fpAtomV.size() < atoms.size()) fpAtomV.resize(atoms.size() + 64, 0);
        if (fpAtomV[id]) return fpAtomV[id];
        uint64_t v;
        if (atoms[id].kind == A_INV) v = finv(fpPoly(atoms[id].arg));
        else { uint64_t x = id * 0x9E3779B97F4A7C15ull + 0x1234567; x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 27; x *= 0x94D049BB133111EBull; x ^= x >> 31; v = x % FP; }
        if (!v) v = 1;
        if (fpAtomV.size() < atoms.size()) fpAtomV.resize(atoms.size() + 64, 0);
        return fpAtomV[id] = v;
    }
    uint64_t fpPoly(Poly *p) {
        auto it = fpPolyV.find(p);
        if (it != fpPolyV.end()) return it->second;
        uint64_t r = 0;
        for (auto &t : p->t) {
            uint64_t v = fpq(t.second);
            for (auto &f : t.first) { uint64_t a = fpAtom(f.first); int e = f.second; if (e < 0) { a = finv(a); e = -e; } v = fmul(v, fpow(a, e)); }
            r = (r + v) % FP;
        }
        return fpPolyV[p] = r;
    }
    bool isIdenticallyZero(Poly *p) {
        if (p->isZero()) return true;
        if (fpPoly(p) != 0) return false;
        try { int s; return clearDen(p, &s, 60000)->isZero(); } catch (PolyTooBig &) { return false; }
    }
    // results of function applications, found again for any rationally equal argument
    std::unordered_map<size_t, std::vector<std::pair<Poly *, Poly *>>> fnMemo;
    Poly *memoFn(const std::string &name, Poly *x, std::function<Poly *(Poly *)> f) {
        auto &v = fnMemo[hmix(std::hash<std::string>()(name), fpPoly(x))];
        for (auto &e : v) if (e.first == x || isIdenticallyZero(PT.sub(e.first, x))) return e.second;
        Poly *r = f(x);
        fnMemo[hmix(std::hash<std::string>()(name), fpPoly(x))].emplace_back(x, r);
        return r;
    }
    // ---- poly -> z3
    Ast polyAst(Poly *p) {
        if (p->z3) return (Ast)p->z3;
        std::vector<Ast> sum;
        for (auto &t : p->t) {
            std::vector<Ast> pr;
            if (t.second != 1 || t.first.empty()) pr.push_back(numeral(t.second));
            for (auto &f : t.first) {
                Ast v = atoms[f.first].v;
                int e = f.second;
                if (e < 0) { v = atoms[invOf(f.first)].v; e = -e; }
                while (e-- > 0) pr.push_back(v);
            }
            sum.push_back(pr.size() == 1 ? pr[0] : Z3_mk_mul(c, pr.size(), pr.data()));
        }
        Ast r = sum.empty() ? numeral(0) : sum.size() == 1 ? sum[0] : Z3_mk_add(c, sum.size(), sum.data());
        p->z3 = (void *)r;
        return r;
    }
    // an explicit reciprocal atom of a single atom, only for z3 output
    uint32_t invOf(uint32_t a) {
        Poly *q = PT.atom(a);
        return findAtom(hmix(2, q->id), [&](Atom &x) { return x.kind == A_INV && x.arg == q; }, [&]() {
            Atom x; x.kind = A_INV; x.name = "rcp"; x.arg = q; x.nonzero = true; x.sign = atoms[a].sign > 0 ? 2 : atoms[a].sign < 0 ? -2 : 0; return x; });
    }
    enum Rel { LT, LE, EQ };
    // p REL 0 as z3 Bool (or constant)
    Ast relZero(Poly *p, Rel r) {
        if (p->isConst()) {
            int s = sgn(p->constant());
            bool b = r == LT ? s < 0 : r == LE ? s <= 0 : s == 0;
            return b ? T() : Fa();
        }
        int s = sign(p);
        if (r == LT) { if (s >= 1) return Fa(); if (s == -2) return T(); }
        if (r == LE) { if (s == 2) return Fa(); if (s <= -1) return T(); }
        if (r == EQ) { if (std::abs(s) == 2 || syntNonzero(p)) return Fa(); }
        if (fpPoly(p) == 0 && isIdenticallyZero(p)) return r == LT ? Fa() : T();
        Poly *q = p;
        try {
            int sg;
            Poly *cl = clearDen(p, &sg, 1500);
            if (sg == 2 || r == EQ) {
                q = cl;
                if (q->isConst()) return relZero(q, r);
                s = sign(q);
                if (r == LT) { if (s >= 1) return Fa(); if (s == -2) return T(); }
                if (r == LE) { if (s == 2) return Fa(); if (s <= -1) return T(); }
                if (r == EQ && std::abs(s) == 2) return Fa();
            }
        } catch (PolyTooBig &) { q = p; }
        // remove a common monomial of positive atoms, scale
        Mono g = commonMono(q);
        Mono gi; bool ok = true;
        for (auto &f : g) {
            auto &a = atoms[f.first];
            if (a.sign == 2 || (r == EQ && (a.nonzero || a.sign == -2))) gi.emplace_back(f.first, -f.second);
        }
        (void)ok;
        if (!gi.empty()) {
            std::vector<std::pair<Mono, mpq_class>> tt; tt.emplace_back(gi, mpq_class(1));
            q = PT.mul(q, PT.intern(std::move(tt)));
            if (q->isConst()) return relZero(q, r);
        }
        mpq_class k;
        Poly *n = primitive(q, &k);
        Ast a = polyAst(n), z = numeral(0);
        if (r == EQ) return Z3_mk_eq(c, a, z);
        if (sgn(k) > 0) return r == LT ? Z3_mk_lt(c, a, z) : Z3_mk_not(c, Z3_mk_lt(c, z, a));
        return r == LT ? Z3_mk_lt(c, z, a) : Z3_mk_not(c, Z3_mk_lt(c, a, z));
    }
    // ---- function atoms
    Poly *uf(const std::string &name, std::vector<Poly *> args) {
        if (args.size() == 1) return memoFn("uf:" + name, args[0], [&](Poly *p) { return uf0(name, {p}); });
        return uf0(name, args);
    }
    Poly *uf0(const std::string &name, std::vector<Poly *> args) {
        size_t h = std::hash<std::string>()(name);
        for (auto *p : args) h = hmix(h, p->id);
        Poly *a1 = args[0], *a2 = args.size() > 1 ? args[1] : nullptr;
        uint32_t id = findAtom(h, [&](Atom &a) { return a.kind == A_UF && a.name == name && a.arg == a1 && a.arg2 == a2; }, [&]() {
            Atom a; a.kind = A_UF; a.name = name; a.arg = a1; a.arg2 = a2;
            if (name == "exp") { a.sign = 2; a.nonzero = true; }
            return a; });
        return PT.atom(id);
    }
    Poly *mono1(const Mono &m, const mpq_class &q) { std::vector<std::pair<Mono, mpq_class>> t; t.emplace_back(m, q); return PT.intern(std::move(t)); }
    Poly *ipow(Poly *p, int e) { return e >= 0 ? PT.pow(p, e) : inv(PT.pow(p, -e)); }
    Poly *fexp(Poly *x) {
        if (x->isZero()) return PT.cst(mpq_class(1));
        return memoFn("exp", x, [&](Poly *x) {
            // exp of a sum is the product of the exps; log terms cancel; 1/S terms stay together
            Poly *r = PT.cst(mpq_class(1)), *rest = PT.cst(mpq_class(0));
            for (auto &t : x->t) {
                bool hasInv = false;
                for (auto &f : t.first) if (f.second < 0 || atoms[f.first].kind == A_INV) hasInv = true;
                if (hasInv) { rest = PT.add(rest, mono1(t.first, t.second)); continue; }
                if (t.first.size() == 1 && t.first[0].second == 1 && t.second.get_den() == 1 && abs(t.second) <= 4) {
                    Atom a = atoms[t.first[0].first];
                    if (a.kind == A_UF && a.name == "log") { r = PT.mul(r, ipow(a.arg, (int)t.second.get_num().get_si())); continue; }
                }
                mpq_class q = t.second; int e = 1;
                if (abs(q.get_num()) <= 4) { e = (int)q.get_num().get_si(); q = mpq_class(1) / q.get_den(); }
                else if (sgn(q) < 0) { e = -1; q = -q; }
                r = PT.mul(r, ipow(uf("exp", {mono1(t.first, q)}), e));
            }
            if (!rest->isZero()) {
                bool neg = sgn(rest->t[0].second) < 0;
                Poly *u = nullptr;
                // an earlier rest of opposite sign?
                Poly *g = neg ? PT.neg(rest) : rest;
                u = uf("exp", {g});
                r = PT.mul(r, neg ? inv(u) : u);
            }
            return r;
        });
    }
    Poly *flogq(const mpq_class &q) {
        Poly *r = PT.cst(mpq_class(0));
        if (q.get_num() != 1) r = PT.add(r, uf("log", {PT.cst(mpq_class(q.get_num()))}));
        if (q.get_den() != 1) r = PT.sub(r, uf("log", {PT.cst(mpq_class(q.get_den()))}));
        return r;
    }
    Poly *flog(Poly *x) {                            // x > 0 on this path
        if (x->isConst() && x->constant() == 1) return PT.cst(mpq_class(0));
        return memoFn("log", x, [&](Poly *x) {
            auto logAtom = [&](uint32_t id) -> Poly * {
                Atom a = atoms[id];
                if (a.kind == A_UF && a.name == "exp") return a.arg;
                if (a.kind == A_INV && sign(a.arg) == 2) return PT.neg(flog(a.arg));
                return uf("log", {PT.atom(id)});
            };
            if (x->isConst()) return flogq(x->constant());
            Mono g = commonMono(x), gi;
            Poly *r = PT.cst(mpq_class(0));
            for (auto &f : g) if (atoms[f.first].sign == 2) {
                gi.emplace_back(f.first, -f.second);
                r = PT.add(r, PT.scale(logAtom(f.first), mpq_class(f.second)));
            }
            Poly *q = gi.empty() ? x : unfoldInvInv(PT.mul(x, mono1(gi, mpq_class(1))));
            if (q->isConst()) return PT.add(r, flogq(q->constant()));
            mpq_class k; Poly *n = primitive(q, &k);
            if (sgn(k) > 0) { if (k != 1) r = PT.add(r, flogq(k)); q = n; }
            return PT.add(r, uf("log", {q}));
        });
    }
    Poly *fabs_(Poly *x) {
        int s = sign(x);
        if (s > 0) return x;
        if (s < 0) return PT.neg(x);
        // canonical up to sign
        mpq_class k; Poly *n = primitive(x, &k);
        uint32_t id = findAtom(hmix(3, n->id), [&](Atom &a) { return a.kind == A_ABS && a.arg == n; }, [&]() {
            Atom a; a.kind = A_ABS; a.name = "abs"; a.arg = n; a.sign = 1; return a; });
        return PT.scale(PT.atom(id), abs(k));
    }
    Poly *fsqrt(Poly *x) {
        uint32_t id = findAtom(hmix(4, x->id), [&](Atom &a) { return a.kind == A_SQRT && a.arg == x; }, [&]() {
            Atom a; a.kind = A_SQRT; a.name = "sqrt"; a.arg = x; a.sign = sign(x) == 2 ? 2 : 1; return a; });
        return PT.atom(id);
    }
    Poly *fite(Ast cnd, Poly *a, Poly *b) {
        if (a == b) return a;
        size_t h = hmix(hmix(5, a->id), hmix(b->id, (size_t)cnd));
        uint32_t id = findAtom(h, [&](Atom &x) { return x.kind == A_ITE && x.arg == a && x.arg2 == b && x.cond == cnd; }, [&]() {
            Atom x; x.kind = A_ITE; x.name = "ite"; x.arg = a; x.arg2 = b; x.cond = cnd;
            int s1 = sign(a), s2 = sign(b);
            if (s1 && s2 && (s1 > 0) == (s2 > 0)) x.sign = s1 > 0 ? std::min(s1, s2) : std::max(s1, s2);
            return x; });
        return PT.atom(id);
    }
    // ---- bit vectors -> reals
    bool isNum(Ast a) { return Z3_get_ast_kind(c, a) == Z3_NUMERAL_AST; }
    int64_t bvSigned(Ast a) {
        unsigned w = Z3_get_bv_sort_size(c, Z3_get_sort(c, a));
        uint64_t v = 0; Z3_get_numeral_uint64(c, a, &v);
        if (w < 64 && (v >> (w - 1))) v |= ~((1ull << w) - 1);
        return (int64_t)v;
    }
    unsigned bvw(Ast a) { return Z3_get_bv_sort_size(c, Z3_get_sort(c, a)); }
    bool range(Ast a, int64_t &lo, int64_t &hi, int depth = 0) {     // signed range, false if unknown
        auto it = bvRange.find(a);
        if (it != bvRange.end()) { lo = it->second.first; hi = it->second.second; return true; }
        unsigned w = bvw(a);
        if (w > 64) return false;
        if (isNum(a)) { lo = hi = bvSigned(a); return true; }
        if (depth > 200) return false;
        if (Z3_get_ast_kind(c, a) != Z3_APP_AST) return false;
        Z3_app ap = Z3_to_app(c, a);
        unsigned n = Z3_get_app_num_args(c, ap);
        Z3_decl_kind k = Z3_get_decl_kind(c, Z3_get_app_decl(c, ap));
        auto fits = [&](__int128 l, __int128 h) {
            __int128 mx = ((__int128)1 << (w - 1));
            return l >= -mx && h < mx;
        };
        bool ok = false;
        if (k == Z3_OP_BADD) {
            __int128 l = 0, h = 0; ok = true;
            for (unsigned i = 0; i < n && ok; i++) { int64_t x, y; ok = range(Z3_get_app_arg(c, ap, i), x, y, depth + 1); l += x; h += y; }
            ok = ok && fits(l, h); if (ok) { lo = l; hi = h; }
        } else if (k == Z3_OP_BMUL) {
            __int128 l = 1, h = 1; ok = true;
            for (unsigned i = 0; i < n && ok; i++) {
                int64_t x, y; ok = range(Z3_get_app_arg(c, ap, i), x, y, depth + 1);
                if (!ok) break;
                __int128 q[4] = {l * x, l * y, h * x, h * y};
                l = *std::min_element(q, q + 4); h = *std::max_element(q, q + 4);
                ok = fits(l, h);
            }
            if (ok) { lo = l; hi = h; }
        } else if (k == Z3_OP_SIGN_EXT) {
            ok = range(Z3_get_app_arg(c, ap, 0), lo, hi, depth + 1);
        } else if (k == Z3_OP_ZERO_EXT) {
            ok = range(Z3_get_app_arg(c, ap, 0), lo, hi, depth + 1) && lo >= 0;
            if (!ok) { unsigned iw = bvw(Z3_get_app_arg(c, ap, 0)); if (iw < 63) { lo = 0; hi = (int64_t)((1ull << iw) - 1); ok = true; } }
        } else if (k == Z3_OP_CONCAT) {
            // (concat 0 x)
            if (n == 2 && isNum(Z3_get_app_arg(c, ap, 0)) && bvSigned(Z3_get_app_arg(c, ap, 0)) == 0) {
                Ast x = Z3_get_app_arg(c, ap, 1);
                ok = range(x, lo, hi, depth + 1) && lo >= 0;
                if (!ok) { unsigned iw = bvw(x); if (iw < 63) { lo = 0; hi = (int64_t)((1ull << iw) - 1); ok = true; } }
            }
        } else if (k == Z3_OP_ITE) {
            int64_t a1, b1, a2, b2;
            ok = range(Z3_get_app_arg(c, ap, 1), a1, b1, depth + 1) && range(Z3_get_app_arg(c, ap, 2), a2, b2, depth + 1);
            if (ok) { lo = std::min(a1, a2); hi = std::max(b1, b2); }
        } else if (k == Z3_OP_EXTRACT) {
            Z3_func_decl d = Z3_get_app_decl(c, ap);
            int l0 = Z3_get_decl_int_parameter(c, d, 1);
            int64_t x, y;
            if (l0 == 0 && range(Z3_get_app_arg(c, ap, 0), x, y, depth + 1) && fits(x, y)) { lo = x; hi = y; ok = true; }
        }
        if (ok) bvRange[a] = {lo, hi};
        return ok;
    }
    Poly *i2r(Ast a) {                               // signed integer value as real
        if (isNum(a)) { mpq_class q; int64_t v = bvSigned(a); q = mpq_class(mpz_class(std::to_string(v))); return PT.cst(q); }
        int64_t lo, hi;
        if (range(a, lo, hi) && Z3_get_ast_kind(c, a) == Z3_APP_AST) {
            Z3_app ap = Z3_to_app(c, a);
            unsigned n = Z3_get_app_num_args(c, ap);
            Z3_decl_kind k = Z3_get_decl_kind(c, Z3_get_app_decl(c, ap));
            if (k == Z3_OP_BADD) { Poly *r = PT.cst(mpq_class(0)); for (unsigned i = 0; i < n; i++) r = PT.add(r, i2r(Z3_get_app_arg(c, ap, i))); return r; }
            if (k == Z3_OP_BMUL) { Poly *r = PT.cst(mpq_class(1)); for (unsigned i = 0; i < n; i++) r = PT.mul(r, i2r(Z3_get_app_arg(c, ap, i))); return r; }
            if (k == Z3_OP_SIGN_EXT) return i2r(Z3_get_app_arg(c, ap, 0));
            if (k == Z3_OP_ZERO_EXT) { int64_t x, y; if (range(Z3_get_app_arg(c, ap, 0), x, y) && x >= 0) return i2r(Z3_get_app_arg(c, ap, 0)); }
            if (k == Z3_OP_CONCAT && n == 2) { int64_t x, y; if (range(Z3_get_app_arg(c, ap, 1), x, y) && x >= 0) return i2r(Z3_get_app_arg(c, ap, 1)); }
            if (k == Z3_OP_EXTRACT) {
                int l0 = Z3_get_decl_int_parameter(c, Z3_get_app_decl(c, ap), 1);
                int64_t x, y; Ast in = Z3_get_app_arg(c, ap, 0);
                unsigned w = bvw(a);
                if (l0 == 0 && range(in, x, y) && x >= -(1ll << (w - 1)) && y < (1ll << (w - 1))) return i2r(in);
            }
        }
        uint32_t id = findAtom(hmix(6, (size_t)a), [&](Atom &x) { return x.kind == A_I2R && x.cond == a; }, [&]() {
            Atom x; x.kind = A_I2R; x.name = "i2r"; x.cond = a;
            int64_t l, h; unsigned w = bvw(a);
            if (range(a, l, h)) {
                x.sign = l > 0 ? 2 : l >= 0 ? 1 : h < 0 ? -2 : h <= 0 ? -1 : 0;
                x.lo = l; x.hi = h;
            }
            (void)w;
            return x; });
        if (atoms[id].extra.empty()) {
            int64_t l, h; unsigned w = bvw(a); Ast v = atoms[id].v;
            std::vector<Ast> ex;
            if (range(a, l, h) && h - l <= 12) {
                for (int64_t q = l; q <= h; q++)
                    ex.push_back(Z3_mk_implies(c, Z3_mk_eq(c, a, mkBV((uint64_t)q & (w >= 64 ? ~0ull : ((1ull << w) - 1)), w)), Z3_mk_eq(c, v, numeral(mpq_class((long)q)))));
                ex.push_back(Z3_mk_le(c, numeral(mpq_class((long)l)), v));
                ex.push_back(Z3_mk_le(c, v, numeral(mpq_class((long)h))));
            } else {
                ex.push_back(Z3_mk_eq(c, v, Z3_mk_int2real(c, Z3_mk_bv2int(c, a, true))));
                if (range(a, l, h)) {
                    ex.push_back(Z3_mk_le(c, numeral(mpq_class(mpz_class(std::to_string(l)))), v));
                    ex.push_back(Z3_mk_le(c, v, numeral(mpq_class(mpz_class(std::to_string(h))))));
                }
            }
            atoms[id].extra = ex;
        }
        return PT.atom(id);
    }
    Poly *bits2r(Ast a) {
        uint32_t id = findAtom(hmix(7, (size_t)a), [&](Atom &x) { return x.kind == A_BITS && x.cond == a; }, [&]() {
            Atom x; x.kind = A_BITS; x.name = "bits"; x.cond = a; return x; });
        return PT.atom(id);
    }
    // ---- dependencies
    const std::vector<uint32_t> &deps(Ast a) {                 // ids of z3 constants (closure over atom definitions)
        auto it = depCache.find(a);
        if (it != depCache.end()) return it->second;
        std::set<uint32_t> s;
        if (Z3_get_ast_kind(c, a) == Z3_APP_AST) {
            Z3_app ap = Z3_to_app(c, a);
            unsigned n = Z3_get_app_num_args(c, ap);
            if (n == 0) {
                auto v = varAtom.find(a);
                if (v != varAtom.end()) {
                    s.insert(Z3_get_ast_id(c, a));
                    Atom &at = atoms[v->second];
                    depCache[a] = std::vector<uint32_t>(s.begin(), s.end());      // break cycles (none expected)
                    if (at.arg) polyDeps(at.arg, s);
                    if (at.arg2) polyDeps(at.arg2, s);
                    if (at.cond) { auto &d = deps(at.cond); s.insert(d.begin(), d.end()); }
                } else if (Z3_get_decl_kind(c, Z3_get_app_decl(c, ap)) == Z3_OP_UNINTERPRETED)
                    s.insert(Z3_get_ast_id(c, a));
            } else
                for (unsigned i = 0; i < n; i++) { auto d = deps(Z3_get_app_arg(c, ap, i)); s.insert(d.begin(), d.end()); }
        }
        return depCache[a] = std::vector<uint32_t>(s.begin(), s.end());
    }
    void polyDeps(Poly *p, std::set<uint32_t> &s) {
        for (auto &t : p->t) for (auto &f : t.first) { auto d = deps(atoms[f.first].v); s.insert(d.begin(), d.end()); }
    }
    void collectAtoms(Ast a, std::set<uint32_t> &out, std::unordered_set<Ast> &seen) {
        if (!seen.insert(a).second) return;
        if (Z3_get_ast_kind(c, a) != Z3_APP_AST) return;
        auto v = varAtom.find(a);
        if (v != varAtom.end()) { out.insert(v->second); return; }
        Z3_app ap = Z3_to_app(c, a);
        for (unsigned i = 0; i < Z3_get_app_num_args(c, ap); i++) collectAtoms(Z3_get_app_arg(c, ap, i), out, seen);
    }
    // definitional constraints for all atoms in the constraints (closure)
    void definitions(const std::vector<Ast> &cs, std::vector<Ast> &out) {
        std::set<uint32_t> todo, done;
        std::unordered_set<Ast> seen;
        for (Ast a : cs) collectAtoms(a, todo, seen);
        auto emit = [&](Ast a) { out.push_back(a); collectAtoms(a, todo, seen); };
        while (!todo.empty()) {
            uint32_t id = *todo.begin(); todo.erase(todo.begin());
            if (!done.insert(id).second) continue;
            Atom at = atoms[id];
            Ast z = numeral(0);
            if (at.sign == 2) emit(Z3_mk_lt(c, z, at.v));
            else if (at.sign == 1) emit(Z3_mk_le(c, z, at.v));
            else if (at.sign == -2) emit(Z3_mk_lt(c, at.v, z));
            switch (at.kind) {
                case A_INPUT:
                    if (std::isfinite(at.lo)) emit(Z3_mk_le(c, numeral(mpq_class(at.lo)), at.v));
                    if (std::isfinite(at.hi)) emit(Z3_mk_le(c, at.v, numeral(mpq_class(at.hi))));
                    break;
                case A_INV: {
                    Ast m[2] = {polyAst(at.arg), at.v};
                    emit(Z3_mk_eq(c, Z3_mk_mul(c, 2, m), numeral(1)));
                    break;
                }
                case A_ABS: {
                    Ast x = polyAst(at.arg), nx = polyAst(PT.neg(at.arg));
                    emit(Z3_mk_ite(c, Z3_mk_le(c, z, x), Z3_mk_eq(c, at.v, x), Z3_mk_eq(c, at.v, nx)));
                    break;
                }
                case A_SQRT: {
                    Ast m[2] = {at.v, at.v};
                    emit(Z3_mk_eq(c, Z3_mk_mul(c, 2, m), polyAst(at.arg)));
                    break;
                }
                case A_ITE:
                    emit(Z3_mk_ite(c, at.cond, Z3_mk_eq(c, at.v, polyAst(at.arg)), Z3_mk_eq(c, at.v, polyAst(at.arg2))));
                    break;
                case A_UF: {
                    for (uint32_t o : done) {
                        if (o == id) continue;
                        Atom &b = atoms[o];
                        if (b.kind != A_UF || b.name != at.name || (!b.arg2) != (!at.arg2)) continue;
                        std::vector<Ast> pr;
                        pr.push_back(relZero(PT.sub(at.arg, b.arg), EQ));
                        if (at.arg2) pr.push_back(relZero(PT.sub(at.arg2, b.arg2), EQ));
                        Ast pre = simp(mkAnd(pr));
                        if (isTF(pre) == 0) continue;
                        emit(Z3_mk_implies(c, pre, Z3_mk_eq(c, at.v, atoms[o].v)));
                    }
                    break;
                }
                default: break;
            }
            for (Ast e : at.extra) emit(e);
        }
    }
    bool hasBV(Ast a, std::unordered_set<Ast> &seen) {
        if (!seen.insert(a).second) return false;
        if (Z3_get_sort_kind(c, Z3_get_sort(c, a)) == Z3_BV_SORT) return true;
        if (Z3_get_ast_kind(c, a) != Z3_APP_AST) return false;
        Z3_app ap = Z3_to_app(c, a);
        for (unsigned i = 0; i < Z3_get_app_num_args(c, ap); i++) if (hasBV(Z3_get_app_arg(c, ap, i), seen)) return true;
        return false;
    }
    std::vector<Ast> slice(const std::vector<Ast> &extra) {
        std::set<uint32_t> vars;
        for (Ast e : extra) { auto &d = deps(e); vars.insert(d.begin(), d.end()); }
        std::vector<char> used(pc.size(), 0);
        bool ch = true;
        std::vector<Ast> r = extra;
        while (ch) {
            ch = false;
            for (size_t i = 0; i < pc.size(); i++) {
                if (used[i]) continue;
                bool hit = false;
                for (uint32_t v : pcDeps[i]) if (vars.count(v)) { hit = true; break; }
                if (!hit) continue;
                used[i] = 1; ch = true;
                vars.insert(pcDeps[i].begin(), pcDeps[i].end());
                r.push_back(pc[i]);
            }
        }
        return r;
    }
    struct QRes { int r; Z3_model m; std::string txt; };       // r: 1 sat 0 unsat -1 unknown
    std::unordered_map<size_t, int> qcache;
    std::function<std::string(Z3_model)> render;               // what to keep of a model
    static Sym *self;
    static volatile int alarmed;
    static void onAlarm(int) { alarmed = alarmed + 1; Z3_interrupt(self->c); if (alarmed > 3) { SH->crashes++; _exit(9); } alarm(10); }
    QRes solveHere(const std::vector<Ast> &cs, bool hard, bool wantModel, bool nla) {
        QRes res{-1, nullptr, ""};
        Z3_solver s;
        if (nla) {
            static Z3_tactic tt = nullptr;
            if (!tt) { tt = Z3_mk_tactic(c, "qfnra-nlsat"); Z3_tactic_inc_ref(c, tt); }
            s = Z3_mk_solver_from_tactic(c, tt);
        } else
            s = Z3_mk_solver(c);
        Z3_solver_inc_ref(c, s);
        Z3_params p = Z3_mk_params(c);
        Z3_params_inc_ref(c, p);
        Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "rlimit"), hard ? rlimitHard : rlimit);
        Z3_solver_set_params(c, s, p);
        for (Ast a : cs) Z3_solver_assert(c, s, a);
        Z3_lbool l = Z3_solver_check(c, s);
        if (l == Z3_L_FALSE) res.r = 0;
        else if (l == Z3_L_TRUE) {
            res.r = 1;
            if (wantModel) { res.m = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, res.m); if (render) res.txt = render(res.m); }
        }
        Z3_params_dec_ref(c, p);
        Z3_solver_dec_ref(c, s);
        return res;
    }
    // non-linear real queries run in a process of their own with a hard time limit
    QRes solveForked(const std::vector<Ast> &cs, bool hard, bool wantModel, bool nla) {
        int fd[2];
        QRes res{-1, nullptr, ""};
        if (pipe(fd)) return res;
        pid_t pid = fork();
        if (pid < 0) { close(fd[0]); close(fd[1]); return res; }
        if (pid == 0) {
            close(fd[0]);
            signal(SIGALRM, SIG_DFL);
            alarm((unsigned)(hard ? hardWall : queryWall) + 2);
            QRes r = solveHere(cs, hard, wantModel, nla);
            std::string o = (r.r == 0 ? "0" : r.r == 1 ? "1" : "?") + r.txt;
            size_t off = 0;
            while (off < o.size()) { ssize_t w = write(fd[1], o.data() + off, o.size() - off); if (w <= 0) break; off += w; }
            _exit(0);
        }
        close(fd[1]);
        std::string o; char b[4096];
        double end = nowS() + (hard ? hardWall : queryWall);
        for (;;) {
            double left = end - nowS();
            if (left <= 0) break;
            struct pollfd pf = {fd[0], POLLIN, 0};
            int pr = poll(&pf, 1, (int)(left * 1000) + 1);
            if (pr < 0 && errno == EINTR) continue;
            if (pr <= 0) break;
            ssize_t n = read(fd[0], b, sizeof b);
            if (n <= 0) break;
            o.append(b, n);
        }
        close(fd[0]);
        if (o.empty()) kill(pid, SIGKILL);
        int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (!o.empty()) { res.r = o[0] == '0' ? 0 : o[0] == '1' ? 1 : -1; res.txt = o.substr(1); }
        return res;
    }
    QRes runZ3(const std::vector<Ast> &cs, bool hard, bool wantModel) {
        std::unordered_set<Ast> seen;
        bool bv = false;
        for (Ast a : cs) if (hasBV(a, seen)) bv = true;
        QRes res{-1, nullptr, ""};
        for (int attempt = 0; attempt < 2; attempt++) {
            double t0 = nowS();
            if (bv) {
                self = this; alarmed = 0;
                signal(SIGALRM, onAlarm);
                alarm((unsigned)(hard ? hardWall : queryWall * 3) + 1);
                res = solveHere(cs, hard, wantModel, false);
                alarm(0);
            } else res = solveForked(cs, hard, wantModel, attempt == 0);
            SH->queries++;
            SH->solver_us += (uint64_t)((nowS() - t0) * 1e6);
            if (res.r == 0) SH->qunsat++; else if (res.r == 1) SH->qsat++;
            if (res.r >= 0 || bv || (!hard && attempt == 0 && nowS() - t0 > 0.5)) break;
        }
        if (res.r < 0) SH->qunknown++;
        return res;
    }
    QRes check(const std::vector<Ast> &extra, bool hard = false, bool wantModel = false, bool full = false) {
        std::vector<Ast> cs;
        if (full) { cs = extra; cs.insert(cs.end(), pc.begin(), pc.end()); }
        else cs = slice(extra);
        std::vector<Ast> defs;
        definitions(cs, defs);
        cs.insert(cs.end(), defs.begin(), defs.end());
        std::sort(cs.begin(), cs.end());
        cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
        size_t h = 77;
        for (Ast a : cs) h = hmix(h, (size_t)a);
        if (!wantModel) { auto it = qcache.find(h); if (it != qcache.end()) return {it->second, nullptr, ""}; }
        QRes r = runZ3(cs, hard, wantModel);
        if (r.r >= 0) qcache[h] = r.r;
        return r;
    }
    // ---- numeric evaluation on sample points (used only to show feasibility / find models)
    static double digammaD(double x) {
        double r = 0;
        while (x < 10) { r -= 1 / x; x += 1; }
        double f = 1 / (x * x);
        return r + std::log(x) - 0.5 / x - f * (1. / 12 - f * (1. / 120 - f * (1. / 252 - f * (1. / 240 - f / 132))));
    }
    double evPoly(Poly *p, Sample &s) {
        double r = 0;
        for (auto &t : p->t) {
            double v = t.second.get_d();
            for (auto &f : t.first) { double a = evAtom(f.first, s); int e = f.second; if (e < 0) { a = 1 / a; e = -e; } while (e-- > 0) v *= a; }
            r += v;
        }
        return r;
    }
    double evAtom(uint32_t id, Sample &s) {
        if (s.av.size() < atoms.size()) { s.av.resize(atoms.size()); s.has.resize(atoms.size(), 0); }
        if (s.has[id]) return s.av[id];
        Atom a = atoms[id];
        double v = NAN;
        switch (a.kind) {
            case A_INPUT: v = randIn(a.lo, a.hi); break;
            case A_INV: v = 1 / evPoly(a.arg, s); break;
            case A_ABS: v = std::fabs(evPoly(a.arg, s)); break;
            case A_SQRT: v = std::sqrt(evPoly(a.arg, s)); break;
            case A_ITE: { int b = evBool(a.cond, s); v = b < 0 ? NAN : b ? evPoly(a.arg, s) : evPoly(a.arg2, s); break; }
            case A_I2R: { uint64_t u; if (evBV(a.cond, s, u)) { unsigned w = bvw(a.cond); if (w < 64 && (u >> (w - 1))) u |= ~((1ull << w) - 1); v = (double)(int64_t)u; } break; }
            case A_BITS: { uint64_t u; if (evBV(a.cond, s, u)) { if (bvw(a.cond) == 64) memcpy(&v, &u, 8); else { float f; uint32_t q = u; memcpy(&f, &q, 4); v = f; } } break; }
            case A_UF: {
                double x = evPoly(a.arg, s);
                if (a.name == "exp") v = std::exp(x); else if (a.name == "log") v = std::log(x);
                else if (a.name == "lgamma") v = std::lgamma(x); else if (a.name == "digamma") v = digammaD(x);
                else if (a.name == "tgamma") v = std::tgamma(x); else if (a.name == "pow") v = std::pow(x, evPoly(a.arg2, s));
                else if (a.name == "sin") v = std::sin(x); else if (a.name == "cos") v = std::cos(x);
                break;
            }
        }
        if (s.av.size() < atoms.size()) { s.av.resize(atoms.size()); s.has.resize(atoms.size(), 0); }
        s.av[id] = v; s.has[id] = 1;
        return v;
    }
    double randIn(double lo, double hi) {
        double L = std::isfinite(lo) ? lo : -8, H = std::isfinite(hi) ? hi : 8;
        if (H - L > 40) { if (L >= 0) H = L + 20; else { L = std::max(L, -10.); H = std::min(H, 10.); } }
        double u = std::uniform_real_distribution<double>(0, 1)(rng);
        double v = L + (H - L) * u;
        // dyadic values so that the native replay sees exactly the same numbers
        v = std::ldexp(std::round(std::ldexp(v, 16)), -16);
        if (v < lo || v > hi) v = L + (H - L) * u;
        return v;
    }
    bool evBV(Ast a, Sample &s, uint64_t &out) {
        unsigned w = bvw(a);
        if (w > 64) return false;
        uint64_t mask = w == 64 ? ~0ull : ((1ull << w) - 1);
        if (isNum(a)) { Z3_get_numeral_uint64(c, a, &out); return true; }
        if (Z3_get_ast_kind(c, a) != Z3_APP_AST) return false;
        Z3_app ap = Z3_to_app(c, a);
        unsigned n = Z3_get_app_num_args(c, ap);
        Z3_decl_kind k = Z3_get_decl_kind(c, Z3_get_app_decl(c, ap));
        if (n == 0) {
            unsigned id = Z3_get_ast_id(c, a);
            auto it = s.bv.find(id);
            if (it != s.bv.end()) { out = it->second; return true; }
            uint64_t v = rng();
            auto r = bvRange.find(a);
            if (r != bvRange.end()) {
                unsigned __int128 span = (unsigned __int128)((__int128)r->second.second - r->second.first) + 1;
                v = (uint64_t)((__int128)r->second.first + (__int128)((unsigned __int128)v % span));
            }
            v &= mask;
            s.bv[id] = v; out = v;
            return true;
        }
        auto sx = [&](uint64_t v, unsigned ww) { if (ww < 64 && (v >> (ww - 1))) v |= ~((1ull << ww) - 1); return (int64_t)v; };
        std::vector<uint64_t> v(n);
        if (k == Z3_OP_ITE) {
            int b = evBool(Z3_get_app_arg(c, ap, 0), s);
            if (b < 0) return false;
            return evBV(Z3_get_app_arg(c, ap, b ? 1 : 2), s, out);
        }
        for (unsigned i = 0; i < n; i++) {
            Ast x = Z3_get_app_arg(c, ap, i);
            if (Z3_get_sort_kind(c, Z3_get_sort(c, x)) != Z3_BV_SORT) return false;
            if (!evBV(x, s, v[i])) return false;
        }
        switch (k) {
            case Z3_OP_BADD: out = 0; for (auto x : v) out += x; break;
            case Z3_OP_BMUL: out = 1; for (auto x : v) out *= x; break;
            case Z3_OP_BSUB: out = v[0]; for (unsigned i = 1; i < n; i++) out -= v[i]; break;
            case Z3_OP_BNEG: out = -v[0]; break;
            case Z3_OP_BNOT: out = ~v[0]; break;
            case Z3_OP_BAND: out = ~0ull; for (auto x : v) out &= x; break;
            case Z3_OP_BOR: out = 0; for (auto x : v) out |= x; break;
            case Z3_OP_BXOR: out = 0; for (auto x : v) out ^= x; break;
            case Z3_OP_BUDIV: case Z3_OP_BUDIV_I: if (!v[1]) return false; out = v[0] / v[1]; break;
            case Z3_OP_BUREM: case Z3_OP_BUREM_I: if (!v[1]) return false; out = v[0] % v[1]; break;
            case Z3_OP_BSHL: out = v[1] >= w ? 0 : v[0] << v[1]; break;
            case Z3_OP_BLSHR: out = v[1] >= w ? 0 : v[0] >> v[1]; break;
            case Z3_OP_BASHR: out = sx(v[0], w) >> std::min<uint64_t>(v[1], 63); break;
            case Z3_OP_ZERO_EXT: out = v[0]; break;
            case Z3_OP_SIGN_EXT: out = sx(v[0], bvw(Z3_get_app_arg(c, ap, 0))); break;
            case Z3_OP_EXTRACT: out = v[0] >> Z3_get_decl_int_parameter(c, Z3_get_app_decl(c, ap), 1); break;
            case Z3_OP_CONCAT: { out = 0; for (unsigned i = 0; i < n; i++) { unsigned ww = bvw(Z3_get_app_arg(c, ap, i)); out = (ww >= 64 ? 0 : out << ww) | v[i]; } break; }
            default: return false;
        }
        out &= mask;
        return true;
    }
    double evReal(Ast a, Sample &s) {
        auto v = varAtom.find(a);
        if (v != varAtom.end()) return evAtom(v->second, s);
        if (isNum(a)) return Z3_get_numeral_double(c, a);
        if (Z3_get_ast_kind(c, a) != Z3_APP_AST) return NAN;
        Z3_app ap = Z3_to_app(c, a);
        unsigned n = Z3_get_app_num_args(c, ap);
        Z3_decl_kind k = Z3_get_decl_kind(c, Z3_get_app_decl(c, ap));
        double r;
        switch (k) {
            case Z3_OP_ADD: r = 0; for (unsigned i = 0; i < n; i++) r += evReal(Z3_get_app_arg(c, ap, i), s); return r;
            case Z3_OP_MUL: r = 1; for (unsigned i = 0; i < n; i++) r *= evReal(Z3_get_app_arg(c, ap, i), s); return r;
            case Z3_OP_SUB: r = evReal(Z3_get_app_arg(c, ap, 0), s); for (unsigned i = 1; i < n; i++) r -= evReal(Z3_get_app_arg(c, ap, i), s); return r;
            case Z3_OP_UMINUS: return -evReal(Z3_get_app_arg(c, ap, 0), s);
            case Z3_OP_DIV: return evReal(Z3_get_app_arg(c, ap, 0), s) / evReal(Z3_get_app_arg(c, ap, 1), s);
            case Z3_OP_POWER: return std::pow(evReal(Z3_get_app_arg(c, ap, 0), s), evReal(Z3_get_app_arg(c, ap, 1), s));
            case Z3_OP_ITE: { int b = evBool(Z3_get_app_arg(c, ap, 0), s); return b < 0 ? NAN : evReal(Z3_get_app_arg(c, ap, b ? 1 : 2), s); }
            default: return NAN;
        }
    }
    int evBool(Ast a, Sample &s) {
        int tf = isTF(a);
        if (tf >= 0) return tf;
        if (Z3_get_ast_kind(c, a) != Z3_APP_AST) return -1;
        Z3_app ap = Z3_to_app(c, a);
        unsigned n = Z3_get_app_num_args(c, ap);
        Z3_decl_kind k = Z3_get_decl_kind(c, Z3_get_app_decl(c, ap));
        auto arg = [&](unsigned i) { return Z3_get_app_arg(c, ap, i); };
        switch (k) {
            case Z3_OP_NOT: { int x = evBool(arg(0), s); return x < 0 ? -1 : !x; }
            case Z3_OP_AND: { int r = 1; for (unsigned i = 0; i < n; i++) { int x = evBool(arg(i), s); if (x == 0) return 0; if (x < 0) r = -1; } return r; }
            case Z3_OP_OR: { int r = 0; for (unsigned i = 0; i < n; i++) { int x = evBool(arg(i), s); if (x == 1) return 1; if (x < 0) r = -1; } return r; }
            case Z3_OP_IMPLIES: { int x = evBool(arg(0), s); if (x == 0) return 1; int y = evBool(arg(1), s); return x < 0 ? (y == 1 ? 1 : -1) : y; }
            case Z3_OP_XOR: { int x = evBool(arg(0), s), y = evBool(arg(1), s); return x < 0 || y < 0 ? -1 : x != y; }
            case Z3_OP_ITE: { int x = evBool(arg(0), s); return x < 0 ? -1 : evBool(arg(x ? 1 : 2), s); }
            default: break;
        }
        if (n == 2) {
            Z3_sort_kind sk = Z3_get_sort_kind(c, Z3_get_sort(c, arg(0)));
            if (sk == Z3_BV_SORT) {
                uint64_t x, y;
                if (!evBV(arg(0), s, x) || !evBV(arg(1), s, y)) return -1;
                unsigned w = bvw(arg(0));
                auto sx = [&](uint64_t v) { if (w < 64 && (v >> (w - 1))) v |= ~((1ull << w) - 1); return (int64_t)v; };
                switch (k) {
                    case Z3_OP_EQ: return x == y;
                    case Z3_OP_DISTINCT: return x != y;
                    case Z3_OP_ULEQ: return x <= y; case Z3_OP_ULT: return x < y; case Z3_OP_UGEQ: return x >= y; case Z3_OP_UGT: return x > y;
                    case Z3_OP_SLEQ: return sx(x) <= sx(y); case Z3_OP_SLT: return sx(x) < sx(y); case Z3_OP_SGEQ: return sx(x) >= sx(y); case Z3_OP_SGT: return sx(x) > sx(y);
                    default: return -1;
                }
            }
            if (sk == Z3_REAL_SORT) {
                double x = evReal(arg(0), s), y = evReal(arg(1), s);
                if (!std::isfinite(x) || !std::isfinite(y)) return -1;
                double d = x - y, tol = 1e-9 * (std::fabs(x) + std::fabs(y) + 1e-3);
                if (std::fabs(d) <= tol) return -1;
                switch (k) {
                    case Z3_OP_EQ: return 0;
                    case Z3_OP_DISTINCT: return 1;
                    case Z3_OP_LE: case Z3_OP_LT: return d < 0;
                    case Z3_OP_GE: case Z3_OP_GT: return d > 0;
                    default: return -1;
                }
            }
            if (sk == Z3_BOOL_SORT && k == Z3_OP_EQ) { int x = evBool(arg(0), s), y = evBool(arg(1), s); return x < 0 || y < 0 ? -1 : x == y; }
        }
        return -1;
    }
    // ---- path condition
    void assume(Ast a) {
        a = simp(a);
        if (isTF(a) == 1) return;
        pc.push_back(a);
        pcDeps.push_back(deps(a));
        lits[a] = true;
        lits[mkNot(a)] = false;
        std::vector<Sample> np;
        for (auto &s : pool) if (evBool(a, s) == 1) np.push_back(s);
        if (np.empty() && !pool.empty()) np = resample(64 * 8, {});
        pool.swap(np);
    }
    // fresh random sample points satisfying the path condition (and extra)
    std::vector<Sample> resample(int tries, const std::vector<Ast> &extra, size_t want = 8) {
        std::vector<Sample> r;
        for (int i = 0; i < tries && r.size() < want; i++) {
            Sample s; bool ok = true;
            for (Ast a : pc) if (evBool(a, s) != 1) { ok = false; break; }
            if (ok) for (Ast a : extra) if (evBool(a, s) != 1) { ok = false; break; }
            if (ok) r.push_back(std::move(s));
        }
        return r;
    }
};
