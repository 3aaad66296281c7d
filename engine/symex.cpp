// Symbolic executor for LLVM IR (clang-18 bitcode of the real sources).
#include "core.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Support/raw_ostream.h>
#include <regex>
#include <deque>
#include <sstream>

using namespace llvm;
Shared *SH;
Sym *Sym::self; volatile int Sym::alarmed;
static Sym *S;

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };
struct PathEnd { };

// ------------------------------------------------------------------ options
static std::string optOut = "events.jsonl";
static std::string optSummary;
static unsigned optMaxPar = 8;
static uint64_t optMaxInst = 20000000;
static int optMaxDepth = 1 << 30, myDepth = 0;
static uint64_t optMaxPaths = 200000;
static double optDeadline = 300, optWall = 2, optWallHard = 20, tStart;
static int optPreempt = 2;
static int optSpurious = 0;
static int optSelectFork = 1;
static int optExact = 1;
static int optNative = 0;
static int optMaxCand = 6;
static int optVerbose = 0;
static int optRaces = 1;
static int optConcretize = 1200;
static int outFd = -1;
static uint64_t myPath = 0;
static std::vector<pid_t> kids;
static bool ownToken = false;

static void emitLine(std::string s) { s += "\n"; ssize_t r = write(outFd, s.data(), s.size()); (void)r; }
static std::string jq(const std::string &s) {
    std::string r = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; }
        else r += ch;
    }
    return r + "\"";
}
static LabelStat &label(const std::string &n) {
    size_t h = std::hash<std::string>()(n) % 256;
    for (int i = 0; i < 256; i++) {
        LabelStat &l = SH->labels[(h + i) % 256];
        if (l.name[0] == 0) { strncpy(l.name, n.c_str(), sizeof(l.name) - 1); return l; }
        if (n.substr(0, sizeof(l.name) - 1) == l.name) return l;
    }
    return SH->labels[0];
}

// ------------------------------------------------------------------ path forking
[[noreturn]] static void finishProcess() {
    for (pid_t k : kids) { int st; while (waitpid(k, &st, 0) < 0 && errno == EINTR) {} if (WIFSIGNALED(st)) SH->crashes++; }
    if (ownToken) SH->running--;
    SH->liveProcs--;
    _exit(0);
}
static bool tooLate() { return nowS() - tStart > optDeadline || SH->stop; }
// returns true in the child
static bool forkPath() {
    if (tooLate() || SH->paths > optMaxPaths) { SH->truncated++; throw PathEnd(); }
    if (++myDepth > optMaxDepth) { SH->bounded++; throw PathEnd(); }
    bool conc = false;
    int64_t r = SH->running;
    while (r < (int64_t)optMaxPar && !conc) conc = SH->running.compare_exchange_weak(r, r + 1);
    SH->forks++;
    SH->liveProcs++;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p < 0) { SH->liveProcs--; if (conc) SH->running--; SH->truncated++; throw PathEnd(); }
    if (p == 0) {
        kids.clear();
        ownToken = conc;
        myPath = SH->nextPathId++;
        SH->paths++;
        S->rng.seed(myPath * 7919 + 17);
        return true;
    }
    if (conc) kids.push_back(p);
    else { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (WIFSIGNALED(st)) SH->crashes++; }
    return false;
}

// ------------------------------------------------------------------ memory
enum { MT = 16 };                       // threads a path may create
struct Shadow { int16_t wt = -1; uint32_t wc = 0; uint32_t rc[MT] = {0}; };
struct Obj {
    uint64_t base = 0, size = 0;
    bool alive = true, ro = false;
    char kind = 'h';
    std::vector<uint8_t> b, m;
    std::map<uint64_t, Val> cells;         // offset -> value (size from width)
    std::vector<Shadow> sh;
    std::string name;
};
static std::deque<Obj> objs;
static std::vector<uint32_t> gran;          // 16-byte granule -> obj index+1
static const uint64_t BASE = 0x100000;
static uint64_t nextAddr = BASE;
static uint64_t alloc(uint64_t size, char kind, const std::string &name = "", bool zero = false, unsigned align = 16) {
    if (align < 16) align = 16;
    nextAddr = (nextAddr + 32 + align - 1) / align * align;
    uint64_t a = nextAddr;
    uint64_t span = (size + 15) / 16 * 16;
    if (size > (1u << 28)) throw Unsupported("huge allocation");
    nextAddr += span + 16;
    objs.emplace_back();
    Obj &o = objs.back();
    o.base = a; o.size = size; o.kind = kind; o.name = name;
    o.b.assign(size, 0);
    o.m.assign(size, zero ? 0 : 1);
    size_t g1 = (nextAddr - BASE) / 16 + 4;
    if (gran.size() < g1) gran.resize(std::max(g1, gran.size() * 2), 0);
    for (uint64_t x = a; x < a + std::max<uint64_t>(span, 16); x += 16) gran[(x - BASE) / 16] = objs.size();
    return a;
}
static Obj *findObj(uint64_t a) {
    if (a < BASE) return nullptr;
    size_t g = (a - BASE) / 16;
    if (g >= gran.size() || !gran[g]) return nullptr;
    return &objs[gran[g] - 1];
}
static unsigned cellBytes(const Val &v) { return (v.w + 7) / 8; }

// ------------------------------------------------------------------ program representation
struct Opnd { int slot = -1; Val c; };
struct Inst {
    unsigned op; Instruction *I; int dst; unsigned w, w2; uint64_t aux;
    std::vector<Opnd> o; std::vector<uint64_t> scale;
    int b0 = -1, b1 = -1; Function *callee = nullptr; int pred = 0; int tk = 0;
};
struct Phi { int dst; std::map<int, Opnd> in; };
struct Blk { std::vector<Phi> phis; std::vector<Inst> in; };
struct FnCode { Function *F; int nslots; std::vector<Blk> blks; int idx; };
static Module *M;
static const DataLayout *DL;
static std::unordered_map<Function *, FnCode *> codes;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr;
static std::unordered_map<uint64_t, Function *> faddr;
static std::unordered_map<std::string, uint64_t> extTI;         // external typeinfo by name

static Val evalConst(Constant *C);
static unsigned tyW(Type *t) {
    if (t->isPointerTy()) return 64;
    if (t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isX86_FP80Ty()) return 80;
    return 0;
}
static Val undefOf(Type *t) {
    if (t->isStructTy()) { std::vector<Val> v; for (unsigned i = 0; i < t->getStructNumElements(); i++) v.push_back(undefOf(t->getStructElementType(i))); return Val::G(v); }
    if (t->isArrayTy()) { std::vector<Val> v; for (unsigned i = 0; i < t->getArrayNumElements(); i++) v.push_back(undefOf(t->getArrayElementType())); return Val::G(v); }
    if (auto *vt = dyn_cast<FixedVectorType>(t)) { std::vector<Val> v; for (unsigned i = 0; i < vt->getNumElements(); i++) v.push_back(undefOf(vt->getElementType())); return Val::G(v); }
    return Val::U(tyW(t));
}
static Val zeroOf(Type *t) {
    if (t->isStructTy()) { std::vector<Val> v; for (unsigned i = 0; i < t->getStructNumElements(); i++) v.push_back(zeroOf(t->getStructElementType(i))); return Val::G(v); }
    if (t->isArrayTy()) { std::vector<Val> v; for (unsigned i = 0; i < t->getArrayNumElements(); i++) v.push_back(zeroOf(t->getArrayElementType())); return Val::G(v); }
    if (auto *vt = dyn_cast<FixedVectorType>(t)) { std::vector<Val> v; for (unsigned i = 0; i < vt->getNumElements(); i++) v.push_back(zeroOf(vt->getElementType())); return Val::G(v); }
    if (t->isFloatingPointTy()) return Val::F(0, tyW(t));
    return Val::I(0, tyW(t));
}
static uint64_t globalAddr(const GlobalValue *g) {
    auto it = gaddr.find(g);
    if (it != gaddr.end()) return it->second;
    if (auto *f = dyn_cast<Function>(g)) {
        uint64_t a = alloc(16, 'f', f->getName().str());
        gaddr[g] = a; faddr[a] = const_cast<Function *>(f);
        return a;
    }
    if (auto *al = dyn_cast<GlobalAlias>(g)) { uint64_t a = globalAddr(cast<GlobalValue>(al->getAliasee()->stripPointerCasts())); gaddr[g] = a; return a; }
    auto *v = cast<GlobalVariable>(g);
    uint64_t sz = v->getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(v->getValueType()) : 256;
    if (v->isDeclaration()) sz = std::max<uint64_t>(sz, 256);
    uint64_t a = alloc(sz, 'g', v->getName().str(), true, v->getAlign() ? v->getAlign()->value() : 16);
    gaddr[g] = a;
    if (v->isDeclaration() && v->getName().starts_with("_ZTI")) extTI[v->getName().str()] = a;
    return a;
}
static double apf(const APFloat &f) { bool l; APFloat g = f; g.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l); return g.convertToDouble(); }
static Val evalConst(Constant *C) {
    if (auto *ci = dyn_cast<ConstantInt>(C)) {
        if (ci->getBitWidth() <= 64) return Val::I(ci->getZExtValue(), ci->getBitWidth());
        SmallString<64> s; ci->getValue().toStringUnsigned(s);
        return Val::S(Z3_mk_numeral(S->c, s.c_str(), Z3_mk_bv_sort(S->c, ci->getBitWidth())), ci->getBitWidth());
    }
    if (auto *cf = dyn_cast<ConstantFP>(C)) return Val::F(apf(cf->getValueAPF()), tyW(C->getType()));
    if (isa<ConstantPointerNull>(C)) return Val::I(0, 64);
    if (isa<UndefValue>(C)) return undefOf(C->getType());
    if (isa<ConstantAggregateZero>(C)) return zeroOf(C->getType());
    if (auto *g = dyn_cast<GlobalValue>(C)) return Val::I(globalAddr(g), 64);
    if (auto *cd = dyn_cast<ConstantDataSequential>(C)) {
        std::vector<Val> v;
        for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(evalConst(cd->getElementAsConstant(i)));
        return Val::G(v);
    }
    if (isa<ConstantStruct>(C) || isa<ConstantArray>(C) || isa<ConstantVector>(C)) {
        std::vector<Val> v;
        for (unsigned i = 0; i < C->getNumOperands(); i++) v.push_back(evalConst(cast<Constant>(C->getOperand(i))));
        return Val::G(v);
    }
    if (auto *ce = dyn_cast<ConstantExpr>(C)) {
        if (auto *gep = dyn_cast<GEPOperator>(ce)) {
            Val b = evalConst(cast<Constant>(gep->getPointerOperand()));
            APInt off(64, 0);
            if (!gep->accumulateConstantOffset(*DL, off)) throw Unsupported("const gep");
            return Val::I(b.u + off.getSExtValue(), 64);
        }
        switch (ce->getOpcode()) {
            case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
                Val v = evalConst(ce->getOperand(0));
                if (v.k == INT) return Val::I(v.u, tyW(ce->getType()));
                return v;
            }
            case Instruction::Trunc: { Val v = evalConst(ce->getOperand(0)); return Val::I(v.u, tyW(ce->getType())); }
            case Instruction::Sub: return Val::I(evalConst(ce->getOperand(0)).u - evalConst(ce->getOperand(1)).u, tyW(ce->getType()));
            case Instruction::Add: return Val::I(evalConst(ce->getOperand(0)).u + evalConst(ce->getOperand(1)).u, tyW(ce->getType()));
            default: break;
        }
    }
    std::string s; raw_string_ostream os(s); C->print(os);
    throw Unsupported("constant " + s.substr(0, 120));
}
static uint64_t dbits(const Val &v) {
    if (v.w == 32) { float f = (float)v.d; uint32_t u; memcpy(&u, &f, 4); return u; }
    uint64_t u; memcpy(&u, &v.d, 8); return u;
}
static double bitsd(uint64_t u, unsigned w) {
    if (w == 32) { uint32_t x = u; float f; memcpy(&f, &x, 4); return f; }
    double d; memcpy(&d, &u, 8); return d;
}

// ------------------------------------------------------------------ threads
struct Frame { FnCode *fn; int blk = 0, ip = 0; std::vector<Val> r; std::vector<uint64_t> allocas; int retDst = -1; };
enum TS { T_RUN, T_MUTEX, T_COND, T_JOIN, T_DONE };
struct Thr { std::vector<Frame> st; TS s = T_RUN; uint64_t obj = 0, mtx = 0; int jt = -1; bool go = false, notified = false, timed = false, timedOut = false, yielded = false; int slot = 0; uint32_t vc[MT] = {0}; uint64_t exc = 0; std::vector<uint64_t> caught; };
static std::vector<Thr> th;
static int cur = 0;
static int preempts = 0, spurious = 0, timeouts = 0;
static std::unordered_map<uint64_t, int> mtxOwner;
static std::unordered_map<uint64_t, int> mtxDepth;   // of recursive mutexes, beyond the first lock
static std::unordered_map<uint64_t, std::vector<uint32_t>> syncVC;
static std::map<std::pair<int, uint64_t>, uint64_t> tlsCopy;
static std::vector<int> schedLog;
static uint64_t ninst = 0;
static std::vector<std::pair<std::string, std::string>> notes;

// ------------------------------------------------------------------ candidates
static std::string qstr(Z3_model m, Input &in) {
    Ast v;
    if (!Z3_model_eval(S->c, m, in.a, true, &v)) return "0";
    char b[64];
    if (in.kind == 0) {
        std::string s;
        if (Z3_is_numeral_ast(S->c, v)) s = Z3_get_numeral_string(S->c, v);
        else if (Z3_is_algebraic_number(S->c, v)) s = Z3_get_numeral_decimal_string(S->c, v, 25);
        else return "0";
        if (!s.empty() && s.back() == '?') s.pop_back();
        double d;
        if (s.find('/') != std::string::npos || s.find('.') == std::string::npos) d = mpq_class(s).get_d(); else d = strtod(s.c_str(), 0);
        if (d < in.lo) d = in.lo;
        if (d > in.hi) d = in.hi;
        snprintf(b, 64, "%.17g", d);
        return b;
    }
    uint64_t u = 0; Z3_get_numeral_uint64(S->c, v, &u);
    if (in.width < 64 && in.kind == 1 && (u >> (in.width - 1))) u |= ~((1ull << in.width) - 1);
    snprintf(b, 64, in.kind == 1 ? "%lld" : "%llu", (long long)u);
    return b;
}
static std::string modelJson(Z3_model m, Sample *s) {
    std::string r = "{";
    for (auto &in : S->inputs) {
        if (r.size() > 1) r += ",";
        std::string v = "0"; char b[64];
        if (in.kind == 3) v = in.sval;
        else if (m) v = qstr(m, in);
        else if (s) {
            if (in.kind == 0) { snprintf(b, 64, "%.17g", S->evAtom(in.atom, *s)); v = b; }
            else {
                uint64_t u = 0; S->evBV(in.a, *s, u);
                if (in.width < 64 && in.kind == 1 && (u >> (in.width - 1))) u |= ~((1ull << in.width) - 1);
                snprintf(b, 64, in.kind == 1 ? "%lld" : "%llu", (long long)u); v = b;
            }
        }
        r += jq(in.name) + ":" + jq(v);
    }
    return r + "}";
}
static std::string schedJson() { std::string r = "["; for (size_t i = 0; i < schedLog.size(); i++) r += (i ? "," : "") + std::to_string(schedLog[i]); return r + "]"; }
static std::string where() {
    if (th.empty() || th[cur].st.empty()) return "";
    std::string r;
    int n = 0;
    for (auto it = th[cur].st.rbegin(); it != th[cur].st.rend() && n < 6; ++it, ++n) r += (n ? " < " : "") + demangle(it->fn->F->getName().str()).substr(0, 90);
    return r;
}
// records a candidate violation: pc && extra is satisfiable (or not refuted)
static bool candidate(const std::string &kind, const std::string &lab, std::vector<Ast> extra, const std::string &detail = "") {
    LabelStat &l = label(lab);
    // a point satisfying everything, with the true elementary functions
    std::vector<Sample> ss = S->resample(400, extra, 1);
    Sample *sp = ss.empty() ? nullptr : &ss[0];
    Sym::QRes q{-1, nullptr, ""};
    S->render = [](Z3_model m) { return modelJson(m, nullptr); };
    if (!sp) {
        q = S->check(extra, true, true, true);
        if (q.r == 0) return false;                       // not reachable after all
        if (q.r < 0) {
            q = S->check(extra, true, true, false);
            if (q.r == 0) return false;
        }
        if (q.r < 0) {
            l.unknown++; SH->unknowns++;
            emitLine("{\"ev\":\"unknown\",\"kind\":" + jq(kind) + ",\"label\":" + jq(lab) + ",\"where\":" + jq(where()) + "}");
            // still hand a default point to the native replay
            Sample s0;
            for (auto &in : S->inputs) if (in.kind == 0) S->evAtom(in.atom, s0);
            emitLine("{\"ev\":\"cand\",\"weak\":true,\"kind\":" + jq(kind) + ",\"label\":" + jq(lab) + ",\"detail\":" + jq(detail) + ",\"where\":" + jq(where()) + ",\"model\":" + modelJson(nullptr, &s0) + ",\"sched\":" + schedJson() + "}");
            return true;
        }
    }
    uint64_t n = ++l.cand;
    SH->cands++;
    if (n <= (uint64_t)optMaxCand)
        emitLine("{\"ev\":\"cand\",\"kind\":" + jq(kind) + ",\"label\":" + jq(lab) + ",\"detail\":" + jq(detail) + ",\"where\":" + jq(where()) + ",\"model\":" + (sp ? modelJson(nullptr, sp) : q.txt) + ",\"sched\":" + schedJson() + "}");
    return true;
}

// ------------------------------------------------------------------ decisions
static bool decideAst(Ast a) {
    a = S->simp(a);
    int tf = S->isTF(a);
    if (tf >= 0) return tf;
    auto it = S->lits.find(a);
    if (it != S->lits.end()) return it->second;
    bool t = false, f = false;
    for (auto &s : S->pool) { int e = S->evBool(a, s); if (e == 1) t = true; else if (e == 0) f = true; if (t && f) break; }
    Ast na = S->mkNot(a);
    bool unk = false;
    if (!t) { int r = S->check({a}).r; t = r != 0; if (r < 0) unk = true; }
    if (!f) { int r = t ? S->check({na}).r : -1; f = t ? r != 0 : true; if (r < 0 && t) unk = true; }
    if (unk) SH->branchUnknown++;
    if (t && !f) { S->lits[a] = true; S->lits[na] = false; return true; }
    if (f && !t) { S->lits[a] = false; S->lits[na] = true; return false; }
    bool side = forkPath();
    S->assume(side ? a : na);
    return side;
}
static bool decide(const Val &v) {
    if (v.k == INT) return v.u & 1;
    if (v.k == BOOL) return decideAst(v.a);
    if (v.k == SYM) return decideAst(Z3_mk_eq(S->c, v.a, S->mkBV(1, v.w)));
    if (v.k == UNDEF) { return decideAst(S->freshConst("undefb", S->boolS)); }
    throw Unsupported("branch on non-integer");
}
static int choose(int n) {
    for (int i = 0; i + 1 < n; i++) if (forkPath()) return i;
    return n - 1;
}
static Ast bvOf(const Val &v);
static uint64_t concretize(const Val &v) {
    if (v.k == INT) return v.u;
    if (v.k == FPC) return dbits(v);
    if (v.k == UNDEF) throw Unsupported("concretize undef");
    Ast a = bvOf(v);
    for (int i = 0; i < optConcretize; i++) {
        uint64_t u; bool got = false;
        for (auto &s : S->pool) if (S->evBV(a, s, u)) { got = true; break; }
        if (!got) {
            S->render = [&](Z3_model m) { Ast r; uint64_t u = 0; Z3_model_eval(S->c, m, a, true, &r); Z3_get_numeral_uint64(S->c, r, &u); return std::to_string(u); };
            auto q = S->check({Z3_mk_eq(S->c, a, a)}, false, true, true);
            if (q.r == 0) { SH->infeasible++; throw PathEnd(); }
            if (q.r < 0) throw Unsupported("concretize: solver unknown");
            u = strtoull(q.txt.c_str(), 0, 10);
        }
        if (decideAst(Z3_mk_eq(S->c, a, S->mkBV(u, v.w)))) return u;
    }
    throw Unsupported("concretize: too many values");
}

// ------------------------------------------------------------------ value conversions
static Ast bvOf(const Val &v) {
    switch (v.k) {
        case INT: return S->mkBV(v.u, v.w);
        case SYM: return v.a;
        case BOOL: return Z3_mk_ite(S->c, v.a, S->mkBV(1, 1), S->mkBV(0, 1));
        case FPC: return S->mkBV(dbits(v), v.w);
        case UNDEF: return S->freshConst("undef", Z3_mk_bv_sort(S->c, v.w ? v.w : 64));
        case POLY:
            // raw bits of a value that originated from symbolic bits
            if (v.p->t.size() == 1 && v.p->t[0].second == 1 && v.p->t[0].first.size() == 1 && v.p->t[0].first[0].second == 1) {
                Atom &a = S->atoms[v.p->t[0].first[0].first];
                if (a.kind == A_BITS) return a.cond;
            }
            throw Unsupported("bits of a symbolic real");
        default: throw Unsupported("bits of aggregate");
    }
}
static Val mkS(Ast a, unsigned w) {
    a = S->simp(a);
    if (w <= 64 && S->isNum(a)) { uint64_t u; Z3_get_numeral_uint64(S->c, a, &u); return Val::I(u, w); }
    return Val::S(a, w);
}
static Val mkB(Ast a) {
    a = S->simp(a);
    int t = S->isTF(a);
    if (t >= 0) return Val::I(t, 1);
    return Val::B(a);
}
static Ast boolOf(const Val &v) {
    if (v.k == INT) return v.u & 1 ? S->T() : S->Fa();
    if (v.k == BOOL) return v.a;
    if (v.k == UNDEF) return S->freshConst("undefb", S->boolS);
    return Z3_mk_eq(S->c, bvOf(v), S->mkBV(1, v.w));
}
static Val mkP(Poly *p, unsigned w) {
    if (p->isConst()) {
        mpq_class q = p->constant();
        double d = q.get_d();
        if (std::isfinite(d) && mpq_class(d) == q) return Val::F(d, w);
    }
    return Val::P(p, w);
}
static Poly *polyOf(const Val &v) {
    switch (v.k) {
        case FPC: return S->PT.cst(mpq_class(v.d));
        case POLY: return v.p;
        case INT: return S->PT.cst(mpq_class(bitsd(v.u, v.w)));
        case SYM: return S->bits2r(v.a);
        case UNDEF: {
            Atom a; a.kind = A_INPUT; a.name = "undefr"; a.lo = -INFINITY; a.hi = INFINITY;
            return S->PT.atom(S->newAtom(a));
        }
        default: throw Unsupported("fp value");
    }
}
static Val fpNorm(const Val &v) { if (v.k == INT) return Val::F(bitsd(v.u, v.w), v.w); return v; }
static bool isSpecial(const Val &v) { return v.k == FPC && !std::isfinite(v.d); }
static Val fneg(Val a) { a = fpNorm(a); if (a.k == FPC) return Val::F(-a.d, a.w); return mkP(S->PT.neg(polyOf(a)), a.w); }
// sign of a finite symbolic value on this path: -1,0,1 (forks)
static int decideSign(Poly *p) {
    int s = S->sign(p);
    if (s == 2) return 1;
    if (s == -2) return -1;
    if (p->isZero()) return 0;
    if (decideAst(S->relZero(p, Sym::EQ))) return 0;
    return decideAst(S->relZero(p, Sym::LT)) ? -1 : 1;
}
static Val fparith(int op, Val a, Val b, unsigned w) {     // op: + - * /
    a = fpNorm(a); b = fpNorm(b);
    if (a.k == FPC && b.k == FPC) {
        double r = op == '+' ? a.d + b.d : op == '-' ? a.d - b.d : op == '*' ? a.d * b.d : a.d / b.d;
        if (isSpecial(a) || isSpecial(b)) return Val::F(r, w);
        if (!optExact || w == 80) { if (w == 32) r = (float)r; return Val::F(r, w); }
        if (op == '/' && b.d == 0) return Val::F(r, w);
        if (a.d == 0 && b.d == 0) return Val::F(r, w);
        bool exact = false;
        if (std::isfinite(r)) {
            if (op == '+' || op == '-') { double bb = op == '-' ? -b.d : b.d; double t = r - a.d; exact = ((a.d - (r - t)) + (bb - t)) == 0; }
            else if (op == '*') exact = std::fma(a.d, b.d, -r) == 0 && (r == 0 ? (a.d == 0 || b.d == 0) : std::fabs(r) > 1e-290);
            else exact = std::fma(r, b.d, -a.d) == 0 && (r == 0 ? a.d == 0 : std::fabs(r) > 1e-290 && std::fabs(a.d) > 1e-290);
        }
        if (exact) return Val::F(r, w);
    }
    if (isSpecial(a) || isSpecial(b)) {
        if (std::isnan(a.k == FPC ? a.d : 0.) || std::isnan(b.k == FPC ? b.d : 0.)) return Val::F(NAN, w);
        double x = a.k == FPC ? a.d : NAN, y = b.k == FPC ? b.d : NAN;
        if (op == '+' || op == '-') return Val::F(isSpecial(a) && isSpecial(b) ? (op == '+' ? x + y : x - y) : isSpecial(a) ? x : (op == '+' ? y : -y), w);
        if (a.k != FPC) x = decideSign(polyOf(a));
        if (b.k != FPC) y = decideSign(polyOf(b));
        return Val::F(op == '*' ? x * y : x / y, w);
    }
    Poly *x = polyOf(a), *y = polyOf(b);
    switch (op) {
        case '+': return mkP(S->PT.add(x, y), w);
        case '-': return mkP(S->PT.sub(x, y), w);
        case '*': return mkP(S->PT.mul(x, y), w);
        default:
            if (y->isZero() || (!S->syntNonzero(y) && decideAst(S->relZero(y, Sym::EQ)))) {
                int s = decideSign(x);
                return Val::F(s == 0 ? NAN : s > 0 ? INFINITY : -INFINITY, w);
            }
            if (y->isConst()) return mkP(S->PT.scale(x, 1 / y->constant()), w);
            return mkP(S->PT.mul(x, S->inv(y)), w);
    }
}
static Val fcmp(int pred, Val a, Val b) {
    a = fpNorm(a); b = fpNorm(b);
    typedef CmpInst P;
    if (pred == P::FCMP_TRUE) return Val::I(1, 1);
    if (pred == P::FCMP_FALSE) return Val::I(0, 1);
    bool an = a.k == FPC && std::isnan(a.d), bn = b.k == FPC && std::isnan(b.d);
    if (an || bn) return Val::I(pred >= P::FCMP_UNO && pred <= P::FCMP_UNE, 1);
    if (pred == P::FCMP_UNO) return Val::I(0, 1);
    if (pred == P::FCMP_ORD) return Val::I(1, 1);
    int rel = pred & 7;     // bits: 1 eq, 2 gt, 4 lt
    if ((a.k == FPC && b.k == FPC) || isSpecial(a) || isSpecial(b)) {
        double x = a.k == FPC ? a.d : 0, y = b.k == FPC ? b.d : 0;
        if (isSpecial(a) && b.k != FPC) y = 0;
        if (isSpecial(b) && a.k != FPC) x = 0;
        bool r = ((rel & 1) && x == y) || ((rel & 2) && x > y) || ((rel & 4) && x < y);
        return Val::I(r, 1);
    }
    Poly *d = S->PT.sub(polyOf(a), polyOf(b));
    switch (rel) {
        case 1: return mkB(S->relZero(d, Sym::EQ));
        case 2: return mkB(S->relZero(S->PT.neg(d), Sym::LT));
        case 3: return mkB(S->relZero(S->PT.neg(d), Sym::LE));
        case 4: return mkB(S->relZero(d, Sym::LT));
        case 5: return mkB(S->relZero(d, Sym::LE));
        case 6: return mkB(S->mkNot(S->relZero(d, Sym::EQ)));
        default: return Val::I(1, 1);
    }
}
// integer part of a symbolic real, concretised (one path per value); mode 0 trunc, 1 floor, 2 ceil
static mpz_class intPart(Poly *p, int mode) {
    auto fl = [&](const mpq_class &q) { mpz_class r; mpz_fdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return r; };
    if (p->isConst()) {
        mpq_class q = p->constant();
        if (mode == 1 || (mode == 0 && q >= 0)) return fl(q);
        return -fl(-q);
    }
    if (mode == 0) { int s = S->sign(p); bool neg = s < 0 ? true : s > 0 ? false : decideAst(S->relZero(p, Sym::LT)); if (neg) return -intPart(S->PT.neg(p), 1); mode = 1; }
    if (mode == 2) return -intPart(S->PT.neg(p), 1);
    for (int i = 0; i < optConcretize; i++) {
        mpz_class n; bool got = false;
        for (auto &s : S->pool) { double v = S->evPoly(p, s); if (std::isfinite(v)) { n = mpz_class(std::floor(v)); got = true; break; } }
        if (!got) {
            Ast a = S->polyAst(p);
            S->render = [&](Z3_model m) { Ast r; Z3_model_eval(S->c, m, a, true, &r); if (Z3_is_numeral_ast(S->c, r)) return std::string(Z3_get_numeral_string(S->c, r)); return std::to_string((long long)std::floor(strtod(Z3_get_numeral_decimal_string(S->c, r, 12), 0))); };
            auto q = S->check({Z3_mk_eq(S->c, a, a)}, false, true, true);
            if (q.r == 0) { SH->infeasible++; throw PathEnd(); }
            if (q.r < 0) throw Unsupported("floor: solver unknown");
            n = fl(mpq_class(q.txt));
        }
        Poly *lo = S->PT.sub(S->PT.cst(mpq_class(n)), p), *hi = S->PT.sub(p, S->PT.cst(mpq_class(n + 1)));
        if (decideAst(S->simp(S->mkAnd({S->relZero(lo, Sym::LE), S->relZero(hi, Sym::LT)})))) return n;
    }
    throw Unsupported("floor: too many values");
}

// ------------------------------------------------------------------ memory access
struct MemErr { std::string msg; };
static int nAlive() { int n = 0; for (auto &t : th) if (t.s != T_DONE) n++; return n; }
static bool everThreads = false;
static void race(Obj &o, uint64_t off, uint64_t n, bool write) {
    if (!everThreads || !optRaces) return;
    if (o.sh.empty()) o.sh.resize(o.size);
    Thr &t = th[cur];
    for (uint64_t i = off; i < off + n; i++) {
        Shadow &s = o.sh[i];
        bool bad = s.wt >= 0 && s.wt != t.slot && s.wc > t.vc[s.wt];
        if (write && !bad) for (int k = 0; k < MT; k++) if (k != t.slot && s.rc[k] > t.vc[k]) bad = true;
        if (bad) {
            SH->races++;
            candidate("race", "no data race", {}, "data race on " + o.name + "+" + std::to_string(i));
            throw PathEnd();
        }
        if (write) { s.wt = t.slot; s.wc = t.vc[t.slot]; } else s.rc[t.slot] = t.vc[t.slot];
    }
}
static Obj &chk(uint64_t a, uint64_t n, bool write) {
    Obj *o = findObj(a);
    if (!o || a < o->base || a + n > o->base + o->size) {
        // one-past granule confusion: zero-size objects etc.
        char b[200];
        if (o) snprintf(b, 200, "%s of %lu bytes at offset %ld of object '%s' (%lu bytes)", write ? "write" : "read", (unsigned long)n, (long)(a - o->base), o->name.c_str(), (unsigned long)o->size);
        else snprintf(b, 200, "%s of %lu bytes at invalid address 0x%lx", write ? "write" : "read", (unsigned long)n, (unsigned long)a);
        throw MemErr{b};
    }
    if (!o->alive) throw MemErr{std::string(write ? "write to" : "read of") + " dead object '" + o->name + "'"};
    if (o->kind == 'f') throw MemErr{"access to a function address"};
    if (write && o->ro) throw MemErr{"write to constant '" + o->name + "'"};
    race(*o, a - o->base, n, write);
    return *o;
}
static void dropCells(Obj &o, uint64_t off, uint64_t n) {       // [off,off+n) will be overwritten
    if (o.cells.empty()) return;
    auto it = o.cells.lower_bound(off >= 16 ? off - 16 : 0);
    while (it != o.cells.end() && it->first < off + n) {
        uint64_t s = it->first, e = s + cellBytes(it->second);
        if (e <= off) { ++it; continue; }
        Val v = it->second;
        it = o.cells.erase(it);
        if (s >= off && e <= off + n) continue;
        // partial overlap: split into bytes
        if (v.k == POLY) { bool isBits = false; try { bvOf(v); isBits = true; } catch (Unsupported &) {} if (!isBits) { for (uint64_t i = s; i < e; i++) if (i < off || i >= off + n) o.m[i] = 1; continue; } }
        Ast bv = bvOf(v);
        for (uint64_t i = s; i < e; i++) {
            if (i >= off && i < off + n) continue;
            Val x = mkS(Z3_mk_extract(S->c, (i - s) * 8 + 7, (i - s) * 8, bv), 8);
            if (x.k == INT) { o.m[i] = 0; o.b[i] = x.u; } else { o.cells[i] = x; o.m[i] = 2; }
        }
        it = o.cells.lower_bound(off >= 16 ? off - 16 : 0);
    }
}
static void storeBytes(Obj &o, uint64_t off, const Val &v, unsigned n) {
    bool any = false;
    for (unsigned i = 0; i < n; i++) if (o.m[off + i] == 2) any = true;
    if (any) dropCells(o, off, n);
    if (v.k == INT) { uint64_t u = v.u; for (unsigned i = 0; i < n; i++) { o.b[off + i] = i < 8 ? u >> (8 * i) : 0; o.m[off + i] = 0; } return; }
    if (v.k == FPC && v.w <= 64) { uint64_t u = dbits(v); if (optExact && v.w == 32 && (double)(float)v.d != v.d && !std::isnan(v.d)) goto cell; for (unsigned i = 0; i < n; i++) { o.b[off + i] = u >> (8 * i); o.m[off + i] = 0; } return; }
    if (v.k == UNDEF) { for (unsigned i = 0; i < n; i++) o.m[off + i] = 1; return; }
cell:
    {
        Val x = v;
        if (x.k == FPC) x = Val::P(S->PT.cst(mpq_class(v.d)), v.w);
        if (x.k == BOOL) x = mkS(Z3_mk_zero_ext(S->c, 7, bvOf(x)), 8);
        if (x.k == SYM && x.w % 8) x = mkS(Z3_mk_zero_ext(S->c, 8 - x.w % 8, x.a), x.w + 8 - x.w % 8);
        if (x.k == INT) { storeBytes(o, off, x, n); return; }
        for (unsigned i = 0; i < n; i++) o.m[off + i] = 2;
        o.cells[off] = x;
    }
}
static void storeTy(uint64_t a, const Val &v, Type *t) {
    if (auto *st = dyn_cast<StructType>(t)) {
        auto *sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) storeTy(a + sl->getElementOffset(i), v.k == AGG ? (*v.agg)[i] : undefOf(st->getElementType(i)), st->getElementType(i));
        return;
    }
    if (t->isArrayTy() || t->isVectorTy()) {
        Type *e = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
        unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        uint64_t sz = DL->getTypeAllocSize(e);
        if (t->isVectorTy() && e->isIntegerTy(1)) throw Unsupported("store of i1 vector");
        for (unsigned i = 0; i < n; i++) storeTy(a + i * sz, v.k == AGG ? (*v.agg)[i] : undefOf(e), e);
        return;
    }
    unsigned n = DL->getTypeStoreSize(t);
    Obj &o = chk(a, n, true);
    storeBytes(o, a - o.base, v, n);
}
static Val loadBytes(Obj &o, uint64_t off, unsigned n, unsigned w, bool fp) {
    bool conc = true, und = true;
    for (unsigned i = 0; i < n; i++) { if (o.m[off + i] != 0) conc = false; if (o.m[off + i] != 1) und = false; }
    if (conc && n <= 8) {
        uint64_t u = 0;
        for (unsigned i = 0; i < n; i++) u |= (uint64_t)o.b[off + i] << (8 * i);
        if (fp) return Val::F(bitsd(u, w), w);
        return Val::I(u, w);
    }
    if (und) return Val::U(w);
    auto it = o.cells.find(off);
    if (it != o.cells.end() && cellBytes(it->second) == n) {
        Val v = it->second;
        if (v.k == SYM && v.w != w) v = mkS(Z3_mk_extract(S->c, w - 1, 0, v.a), w);
        if (v.k == SYM && w == 1) return mkB(Z3_mk_eq(S->c, v.a, S->mkBV(1, 1)));
        return v;
    }
    // compose bytes
    Ast acc = nullptr;
    for (unsigned i = 0; i < n; i++) {
        Ast by;
        if (o.m[off + i] == 0) by = S->mkBV(o.b[off + i], 8);
        else if (o.m[off + i] == 1) by = S->freshConst("undef", Z3_mk_bv_sort(S->c, 8));
        else {
            auto jt = o.cells.upper_bound(off + i);
            if (jt == o.cells.begin()) throw Unsupported("cell lookup");
            --jt;
            uint64_t s = jt->first;
            if (off + i >= s + cellBytes(jt->second)) throw Unsupported("cell lookup");
            by = Z3_mk_extract(S->c, (off + i - s) * 8 + 7, (off + i - s) * 8, bvOf(jt->second));
        }
        acc = acc ? Z3_mk_concat(S->c, by, acc) : by;
    }
    if (w < n * 8) acc = Z3_mk_extract(S->c, w - 1, 0, acc);
    Val v = mkS(acc, w);
    if (w == 1) return mkB(Z3_mk_eq(S->c, bvOf(v), S->mkBV(1, 1)));
    return v;
}
static Val loadTy(uint64_t a, Type *t) {
    if (auto *st = dyn_cast<StructType>(t)) {
        auto *sl = DL->getStructLayout(st);
        std::vector<Val> v;
        for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(loadTy(a + sl->getElementOffset(i), st->getElementType(i)));
        return Val::G(v);
    }
    if (t->isArrayTy() || t->isVectorTy()) {
        Type *e = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
        unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        uint64_t sz = DL->getTypeAllocSize(e);
        std::vector<Val> v;
        for (unsigned i = 0; i < n; i++) v.push_back(loadTy(a + i * sz, e));
        return Val::G(v);
    }
    unsigned n = DL->getTypeStoreSize(t);
    Obj &o = chk(a, n, false);
    return loadBytes(o, a - o.base, n, tyW(t), t->isFloatingPointTy());
}
static uint64_t rd64(uint64_t a) { Obj &o = chk(a, 8, false); return concretize(loadBytes(o, a - o.base, 8, 64, false)); }
static uint32_t rd32(uint64_t a) { Obj &o = chk(a, 4, false); return concretize(loadBytes(o, a - o.base, 4, 32, false)); }
static void memCopy(uint64_t d, uint64_t s, uint64_t n) {
    if (!n || d == s) return;
    Obj &so = chk(s, n, false);
    uint64_t soff = s - so.base;
    std::vector<uint8_t> b(so.b.begin() + soff, so.b.begin() + soff + n), m(so.m.begin() + soff, so.m.begin() + soff + n);
    std::vector<std::pair<uint64_t, Val>> cs;
    bool any = false;
    for (auto x : m) if (x == 2) { any = true; break; }
    if (any) {
        // split cells crossing the borders
        for (uint64_t edge : {soff, soff + n}) {
            auto it = so.cells.upper_bound(edge);
            if (it == so.cells.begin()) continue;
            --it;
            if (it->first < edge && it->first + cellBytes(it->second) > edge) {
                uint64_t st = it->first; Val v = it->second; unsigned nb = cellBytes(v);
                Ast bv = bvOf(v);
                so.cells.erase(it);
                for (unsigned i = 0; i < nb; i++) { Val x = mkS(Z3_mk_extract(S->c, i * 8 + 7, i * 8, bv), 8); if (x.k == INT) { so.m[st + i] = 0; so.b[st + i] = x.u; } else so.cells[st + i] = x; }
                m.assign(so.m.begin() + soff, so.m.begin() + soff + n); b.assign(so.b.begin() + soff, so.b.begin() + soff + n);
            }
        }
        for (auto it = so.cells.lower_bound(soff); it != so.cells.end() && it->first < soff + n; ++it) cs.emplace_back(it->first - soff, it->second);
    }
    Obj &o = chk(d, n, true);
    uint64_t off = d - o.base;
    dropCells(o, off, n);
    std::copy(b.begin(), b.end(), o.b.begin() + off);
    std::copy(m.begin(), m.end(), o.m.begin() + off);
    for (auto &x : cs) o.cells[off + x.first] = x.second;
}
static void memSet(uint64_t d, const Val &v, uint64_t n) {
    if (!n) return;
    Obj &o = chk(d, n, true);
    uint64_t off = d - o.base;
    dropCells(o, off, n);
    if (v.k == INT) { std::fill(o.b.begin() + off, o.b.begin() + off + n, (uint8_t)v.u); std::fill(o.m.begin() + off, o.m.begin() + off + n, 0); }
    else for (uint64_t i = 0; i < n; i++) storeBytes(o, off + i, v, 1);
}
static std::string rdStr(uint64_t a) {
    std::string r;
    for (;;) { Obj &o = chk(a, 1, false); uint64_t c = concretize(loadBytes(o, a - o.base, 1, 8, false)); if (!c) return r; r += (char)c; a++; }
}

// ------------------------------------------------------------------ compile functions
static int nextFnIdx = 0;
static std::vector<std::string> fnNames;
static FnCode *compileFn(Function *F) {
    auto it = codes.find(F);
    if (it != codes.end()) return it->second;
    FnCode *fc = new FnCode;
    fc->F = F;
    fc->idx = nextFnIdx++;
    codes[F] = fc;
    std::unordered_map<const Value *, int> slot;
    std::unordered_map<const BasicBlock *, int> bid;
    int n = 0;
    for (auto &a : F->args()) slot[&a] = n++;
    int nb = 0;
    for (auto &b : *F) { bid[&b] = nb++; for (auto &i : b) if (!i.getType()->isVoidTy()) slot[&i] = n++; }
    fc->nslots = n;
    auto op = [&](Value *v) {
        Opnd o;
        auto s = slot.find(v);
        if (s != slot.end()) { o.slot = s->second; return o; }
        if (auto *c = dyn_cast<Constant>(v)) { o.c = evalConst(c); return o; }
        if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) { o.c = Val::U(64); return o; }
        throw Unsupported("operand");
    };
    fc->blks.resize(nb);
    for (auto &b : *F) {
        Blk &B = fc->blks[bid[&b]];
        for (auto &i : b) {
            if (auto *ph = dyn_cast<PHINode>(&i)) {
                Phi p; p.dst = slot[&i];
                for (unsigned k = 0; k < ph->getNumIncomingValues(); k++) p.in[bid[ph->getIncomingBlock(k)]] = op(ph->getIncomingValue(k));
                B.phis.push_back(std::move(p));
                continue;
            }
            if (isa<DbgInfoIntrinsic>(&i)) continue;
            Inst x;
            x.op = i.getOpcode(); x.I = &i; x.dst = i.getType()->isVoidTy() ? -1 : slot[&i];
            x.w = tyW(i.getType()); x.w2 = 0; x.aux = 0;
            if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
                if (g->getType()->isVectorTy()) throw Unsupported("vector gep");
                x.o.push_back(op(g->getPointerOperand()));
                int64_t off = 0;
                for (auto gt = gep_type_begin(g), e = gep_type_end(g); gt != e; ++gt) {
                    Value *idx = gt.getOperand();
                    if (StructType *st = gt.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
                    uint64_t sz = DL->getTypeAllocSize(gt.getIndexedType());
                    if (auto *ci = dyn_cast<ConstantInt>(idx)) off += ci->getSExtValue() * (int64_t)sz;
                    else { x.o.push_back(op(idx)); x.scale.push_back(sz); }
                }
                x.aux = off;
            } else if (auto *br = dyn_cast<BranchInst>(&i)) {
                if (br->isConditional()) { x.o.push_back(op(br->getCondition())); x.b0 = bid[br->getSuccessor(0)]; x.b1 = bid[br->getSuccessor(1)]; }
                else x.b0 = bid[br->getSuccessor(0)];
            } else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
                x.o.push_back(op(sw->getCondition()));
                x.b0 = bid[sw->getDefaultDest()];
                for (auto &c : sw->cases()) { x.o.push_back(op(c.getCaseValue())); x.scale.push_back(bid[c.getCaseSuccessor()]); }
            } else if (auto *cb = dyn_cast<CallBase>(&i)) {
                for (unsigned k = 0; k < cb->arg_size(); k++) x.o.push_back(op(cb->getArgOperand(k)));
                x.callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
                if (!x.callee) { if (auto *al = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) x.callee = dyn_cast<Function>(al->getAliasee()->stripPointerCasts()); }
                if (!x.callee) x.o.push_back(op(cb->getCalledOperand()));
                if (auto *iv = dyn_cast<InvokeInst>(&i)) { x.b0 = bid[iv->getNormalDest()]; x.b1 = bid[iv->getUnwindDest()]; }
            } else {
                for (auto &u : i.operands()) x.o.push_back(op(u));
                if (auto *c = dyn_cast<CmpInst>(&i)) x.pred = c->getPredicate();
                if (i.getNumOperands()) x.w2 = tyW(i.getOperand(0)->getType());
            }
            B.in.push_back(std::move(x));
        }
    }
    return fc;
}
static std::unordered_map<Function *, int> fnBit;

// ------------------------------------------------------------------ interpreter helpers
static Val get(Frame &f, const Opnd &o) { return o.slot >= 0 ? f.r[o.slot] : o.c; }
static Val intBin(unsigned op, const Val &a, const Val &b, unsigned w) {
    if (a.k == INT && b.k == INT && w <= 64) {
        uint64_t x = a.u, y = b.u;
        auto sx = [&](uint64_t v) { return w < 64 && (v >> (w - 1)) ? (int64_t)(v | ~((1ull << w) - 1)) : (int64_t)v; };
        switch (op) {
            case Instruction::Add: return Val::I(x + y, w);
            case Instruction::Sub: return Val::I(x - y, w);
            case Instruction::Mul: return Val::I(x * y, w);
            case Instruction::UDiv: if (!y) throw MemErr{"integer division by zero"}; return Val::I(x / y, w);
            case Instruction::URem: if (!y) throw MemErr{"integer division by zero"}; return Val::I(x % y, w);
            case Instruction::SDiv: if (!y) throw MemErr{"integer division by zero"}; return Val::I(sx(y) == -1 ? -x : (uint64_t)(sx(x) / sx(y)), w);
            case Instruction::SRem: if (!y) throw MemErr{"integer division by zero"}; return Val::I(sx(y) == -1 ? 0 : (uint64_t)(sx(x) % sx(y)), w);
            case Instruction::And: return Val::I(x & y, w);
            case Instruction::Or: return Val::I(x | y, w);
            case Instruction::Xor: return Val::I(x ^ y, w);
            case Instruction::Shl: return Val::I(y >= w ? 0 : x << y, w);
            case Instruction::LShr: return Val::I(y >= w ? 0 : x >> y, w);
            case Instruction::AShr: return Val::I(sx(x) >> std::min<uint64_t>(y, 63), w);
        }
    }
    if (a.k == UNDEF && b.k == UNDEF) return Val::U(w);
    Z3_context c = S->c;
    if (w == 1) {
        Ast v[2] = {boolOf(a), boolOf(b)};
        switch (op) {
            case Instruction::And: case Instruction::Mul: return mkB(Z3_mk_and(c, 2, v));
            case Instruction::Or: return mkB(Z3_mk_or(c, 2, v));
            case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return mkB(Z3_mk_xor(c, v[0], v[1]));
            default: throw Unsupported("i1 op");
        }
    }
    Ast x = bvOf(a), y = bvOf(b), r;
    switch (op) {
        case Instruction::Add: r = Z3_mk_bvadd(c, x, y); break;
        case Instruction::Sub: r = Z3_mk_bvsub(c, x, y); break;
        case Instruction::Mul: r = Z3_mk_bvmul(c, x, y); break;
        case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
            if (b.k != INT && decideAst(Z3_mk_eq(c, y, S->mkBV(0, w)))) throw MemErr{"integer division by zero"};
            r = op == Instruction::UDiv ? Z3_mk_bvudiv(c, x, y) : op == Instruction::URem ? Z3_mk_bvurem(c, x, y) : op == Instruction::SDiv ? Z3_mk_bvsdiv(c, x, y) : Z3_mk_bvsrem(c, x, y);
            break;
        case Instruction::And: r = Z3_mk_bvand(c, x, y); break;
        case Instruction::Or: r = Z3_mk_bvor(c, x, y); break;
        case Instruction::Xor: r = Z3_mk_bvxor(c, x, y); break;
        case Instruction::Shl: r = Z3_mk_bvshl(c, x, y); break;
        case Instruction::LShr: r = Z3_mk_bvlshr(c, x, y); break;
        case Instruction::AShr: r = Z3_mk_bvashr(c, x, y); break;
        default: throw Unsupported("int op");
    }
    return mkS(r, w);
}
static Val icmp(int pred, const Val &a, const Val &b, unsigned w) {
    typedef CmpInst P;
    if (a.k == INT && b.k == INT) {
        uint64_t x = a.u, y = b.u;
        auto sx = [&](uint64_t v) { return w < 64 && (v >> (w - 1)) ? (int64_t)(v | ~((1ull << w) - 1)) : (int64_t)v; };
        bool r = false;
        switch (pred) {
            case P::ICMP_EQ: r = x == y; break; case P::ICMP_NE: r = x != y; break;
            case P::ICMP_UGT: r = x > y; break; case P::ICMP_UGE: r = x >= y; break; case P::ICMP_ULT: r = x < y; break; case P::ICMP_ULE: r = x <= y; break;
            case P::ICMP_SGT: r = sx(x) > sx(y); break; case P::ICMP_SGE: r = sx(x) >= sx(y); break; case P::ICMP_SLT: r = sx(x) < sx(y); break; case P::ICMP_SLE: r = sx(x) <= sx(y); break;
        }
        return Val::I(r, 1);
    }
    Z3_context c = S->c;
    if (w == 1) {
        Ast x = boolOf(a), y = boolOf(b);
        if (pred == P::ICMP_EQ) return mkB(Z3_mk_iff(c, x, y));
        if (pred == P::ICMP_NE) return mkB(Z3_mk_xor(c, x, y));
        throw Unsupported("i1 icmp");
    }
    if ((a.k == POLY || b.k == POLY)) throw Unsupported("integer compare of symbolic real");
    Ast x = bvOf(a), y = bvOf(b), r;
    switch (pred) {
        case P::ICMP_EQ: r = Z3_mk_eq(c, x, y); break; case P::ICMP_NE: r = Z3_mk_not(c, Z3_mk_eq(c, x, y)); break;
        case P::ICMP_UGT: r = Z3_mk_bvugt(c, x, y); break; case P::ICMP_UGE: r = Z3_mk_bvuge(c, x, y); break;
        case P::ICMP_ULT: r = Z3_mk_bvult(c, x, y); break; case P::ICMP_ULE: r = Z3_mk_bvule(c, x, y); break;
        case P::ICMP_SGT: r = Z3_mk_bvsgt(c, x, y); break; case P::ICMP_SGE: r = Z3_mk_bvsge(c, x, y); break;
        case P::ICMP_SLT: r = Z3_mk_bvslt(c, x, y); break; default: r = Z3_mk_bvsle(c, x, y); break;
    }
    return mkB(r);
}
static bool sameVal(const Val &a, const Val &b) { return a.k == b.k && a.w == b.w && a.k != AGG && a.u == b.u; }
static Val selectVal(const Val &c, const Val &a, const Val &b, Type *t) {
    if (c.k == INT) return c.u & 1 ? a : b;
    if (sameVal(a, b)) return a;
    if (t->isFloatingPointTy()) {
        Val x = fpNorm(a), y = fpNorm(b);
        if (x.k == FPC && y.k == FPC && x.d == y.d && std::signbit(x.d) == std::signbit(y.d)) return x;
        if (optSelectFork || isSpecial(x) || isSpecial(y) || x.k == UNDEF || y.k == UNDEF) return decide(c) ? a : b;
        return mkP(S->fite(boolOf(c), polyOf(x), polyOf(y)), tyW(t));
    }
    if (t->isIntegerTy() && a.k != POLY && b.k != POLY) {
        if (t->isIntegerTy(1)) return mkB(Z3_mk_ite(S->c, boolOf(c), boolOf(a), boolOf(b)));
        return mkS(Z3_mk_ite(S->c, boolOf(c), bvOf(a), bvOf(b)), tyW(t));
    }
    return decide(c) ? a : b;
}
static Val castVal(unsigned op, const Val &v, Type *from, Type *to) {
    unsigned w = tyW(to), w0 = tyW(from);
    switch (op) {
        case Instruction::Trunc:
            if (v.k == INT) return Val::I(v.u, w);
            if (v.k == UNDEF) return Val::U(w);
            if (w == 1) return mkB(Z3_mk_eq(S->c, Z3_mk_extract(S->c, 0, 0, bvOf(v)), S->mkBV(1, 1)));
            return mkS(Z3_mk_extract(S->c, w - 1, 0, bvOf(v)), w);
        case Instruction::ZExt:
            if (v.k == INT && w <= 64) return Val::I(v.u, w);
            if (v.k == UNDEF) return Val::U(w);
            if (v.k == BOOL) return mkS(Z3_mk_ite(S->c, v.a, S->mkBV(1, w), S->mkBV(0, w)), w);
            return mkS(Z3_mk_zero_ext(S->c, w - w0, bvOf(v)), w);
        case Instruction::SExt:
            if (v.k == INT && w <= 64) return Val::I(w0 < 64 && (v.u >> (w0 - 1)) ? v.u | ~((1ull << w0) - 1) : v.u, w);
            if (v.k == UNDEF) return Val::U(w);
            if (v.k == BOOL) return mkS(Z3_mk_ite(S->c, v.a, S->mkBV(~0ull, w), S->mkBV(0, w)), w);
            return mkS(Z3_mk_sign_ext(S->c, w - w0, bvOf(v)), w);
        case Instruction::PtrToInt: case Instruction::IntToPtr:
            if (v.k == INT) return Val::I(v.u, w);
            if (w == w0) return v;
            throw Unsupported("ptr cast");
        case Instruction::BitCast: {
            if (to->isVectorTy() || from->isVectorTy()) throw Unsupported("vector bitcast");
            Val r = v; 
            if (v.k == FPC && to->isIntegerTy()) return Val::I(dbits(v), w);
            if (v.k == INT && to->isFloatingPointTy()) return Val::F(bitsd(v.u, w), w);
            return r;
        }
        case Instruction::FPTrunc: case Instruction::FPExt: {
            Val x = fpNorm(v);
            if (x.k == FPC) return Val::F(!optExact && w == 32 ? (float)x.d : x.d, w);
            if (x.k == UNDEF) return Val::U(w);
            return Val::P(polyOf(x), w);
        }
        case Instruction::SIToFP: case Instruction::UIToFP: {
            if (v.k == INT) {
                int64_t s = w0 < 64 && op == Instruction::SIToFP && (v.u >> (w0 - 1)) ? (int64_t)(v.u | ~((1ull << w0) - 1)) : (int64_t)v.u;
                double d = op == Instruction::SIToFP ? (double)s : (double)v.u;
                if (w == 32 && !optExact) d = (float)d;
                return Val::F(d, w);
            }
            if (v.k == UNDEF) return Val::U(w);
            Ast a = v.k == BOOL ? Z3_mk_ite(S->c, v.a, S->mkBV(1, 8), S->mkBV(0, 8)) : bvOf(v);
            if (v.k == BOOL && op == Instruction::SIToFP) a = Z3_mk_ite(S->c, v.a, S->mkBV(0xff, 8), S->mkBV(0, 8));
            if (op == Instruction::UIToFP && v.k != BOOL) { int64_t l, h; if (!(S->range(a, l, h) && l >= 0)) a = Z3_mk_zero_ext(S->c, 1, a); }
            return mkP(S->i2r(S->simp(a)), w);
        }
        case Instruction::FPToSI: case Instruction::FPToUI: {
            Val x = fpNorm(v);
            if (x.k == UNDEF) return Val::U(w);
            if (x.k == FPC) {
                if (!std::isfinite(x.d) || std::fabs(x.d) >= 9.3e18) return Val::U(w);       // poison
                double tr = std::trunc(x.d);
                if (w <= 32 && (tr > std::ldexp(1.0, w - (op == Instruction::FPToSI)) - 1 || tr < -std::ldexp(1.0, w - 1))) return Val::U(w);
                return Val::I(tr < 0 ? (uint64_t)(int64_t)tr : (uint64_t)tr, w);
            }
            Poly *p = polyOf(x);
            // exactly an integer variable
            if (p->t.size() == 1 && p->t[0].second == 1 && p->t[0].first.size() == 1 && p->t[0].first[0].second == 1) {
                Atom &a = S->atoms[p->t[0].first[0].first];
                if (a.kind == A_I2R) {
                    unsigned iw = S->bvw(a.cond);
                    if (iw == w) return Val::S(a.cond, w);
                    if (iw < w) return mkS(Z3_mk_sign_ext(S->c, w - iw, a.cond), w);
                }
            }
            mpz_class n = intPart(p, 0);
            if (!n.fits_slong_p()) return Val::U(w);
            return Val::I((uint64_t)n.get_si(), w);
        }
    }
    throw Unsupported("cast");
}
static Val lift1(const Val &v, std::function<Val(const Val &)> f) {
    if (v.k != AGG) return f(v);
    std::vector<Val> r; for (auto &x : *v.agg) r.push_back(f(x)); return Val::G(r);
}
static Val lift2(const Val &a, const Val &b, std::function<Val(const Val &, const Val &)> f) {
    if (a.k != AGG) return f(a, b);
    std::vector<Val> r; for (size_t i = 0; i < a.agg->size(); i++) r.push_back(f((*a.agg)[i], b.k == AGG ? (*b.agg)[i] : b)); return Val::G(r);
}

// ------------------------------------------------------------------ scheduling
static std::vector<int> enabledThreads() {
    std::vector<int> e;
    for (size_t i = 0; i < th.size(); i++) {
        Thr &t = th[i];
        bool ok = t.s == T_RUN || (t.s == T_MUTEX && !mtxOwner.count(t.mtx)) || (t.s == T_JOIN && th[t.jt].s == T_DONE) ||
                  (t.s == T_COND && spurious < optSpurious && !mtxOwner.count(t.mtx));
        if (ok) e.push_back(i);
    }
    // time-outs that come late enough for everybody else to be blocked
    if (e.empty()) for (size_t i = 0; i < th.size(); i++) if (th[i].s == T_COND && th[i].timed && !mtxOwner.count(th[i].mtx)) e.push_back(i);
    return e;
}
static void activate(int t) {
    cur = t;
    Thr &x = th[t];
    if (x.s == T_COND) { if (x.timed) x.timedOut = true; else spurious++; x.s = T_RUN; x.notified = true; }
    if (x.s == T_MUTEX || x.s == T_JOIN) x.s = T_RUN;
    x.go = true;
}
static void deadlock() {
    std::string d;
    for (size_t i = 0; i < th.size(); i++) d += "T" + std::to_string(i) + (th[i].s == T_MUTEX ? ":mutex " : th[i].s == T_COND ? ":cond " : th[i].s == T_JOIN ? ":join " : th[i].s == T_DONE ? ":done " : ":run ");
    candidate("deadlock", "every schedule terminates", {}, d);
    throw PathEnd();
}
// choose who runs next; current thread may or may not be runnable
static void reschedule() {
    if (th.size() == 1) { if (th[0].s != T_RUN) { auto e = enabledThreads(); if (e.empty()) deadlock(); activate(0); } th[0].go = true; return; }
    auto e = enabledThreads();
    if (e.empty()) deadlock();
    bool curRun = th[cur].s == T_RUN;
    std::vector<int> opt;
    if (curRun) { opt.push_back(cur); if (preempts < optPreempt) for (int t : e) if (t != cur) opt.push_back(t); }
    else opt = e;
    SH->decisionsPoints += opt.size() > 1;
    int k = opt.size() == 1 ? 0 : choose(opt.size());
    if (curRun && k > 0) preempts++;
    schedLog.push_back(opt[k]);
    activate(opt[k]);
}
static void vcJoin(uint32_t *a, const std::vector<uint32_t> &b) { for (size_t i = 0; i < b.size() && i < MT; i++) a[i] = std::max(a[i], b[i]); }
static void vcRelease(uint64_t obj) { auto &v = syncVC[obj]; v.resize(MT); for (int i = 0; i < MT; i++) v[i] = std::max(v[i], th[cur].vc[i]); th[cur].vc[th[cur].slot]++; }
static void vcAcquire(uint64_t obj) { auto it = syncVC.find(obj); if (it != syncVC.end()) vcJoin(th[cur].vc, it->second); }

// ------------------------------------------------------------------ calls
static void pushFrame(Thr &t, Function *F, const std::vector<Val> &args, int retDst) {
    FnCode *fc = compileFn(F);
    auto fb = fnBit.find(F);
    if (fb != fnBit.end()) SH->fnSeen[fb->second] = 1;
    Frame f;
    f.fn = fc;
    f.r.resize(fc->nslots);
    for (size_t i = 0; i < args.size() && i < F->arg_size(); i++) {
        f.r[i] = args[i];
        if (F->hasParamAttribute(i, Attribute::ByVal)) {
            Type *bt = F->getParamByValType(i);
            uint64_t n = DL->getTypeAllocSize(bt);
            uint64_t a = alloc(n, 's', "byval");
            memCopy(a, concretize(args[i]), n);
            f.r[i] = Val::I(a, 64);
            f.allocas.push_back(a);
        }
    }
    f.retDst = retDst;
    if (t.st.size() > 400) throw Unsupported("stack too deep");
    t.st.push_back(std::move(f));
}
static void killAllocas(Frame &f) { for (uint64_t a : f.allocas) { Obj *o = findObj(a); o->alive = false; o->b.clear(); o->b.shrink_to_fit(); o->m.clear(); o->m.shrink_to_fit(); o->cells.clear(); o->sh.clear(); } }

// ------------------------------------------------------------------ exceptions
static const char *stdParent(const std::string &n) {
    static std::map<std::string, const char *> m = {
        {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
        {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
        {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
        {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"},
        {"_ZTINSt8ios_base7failureB5cxx11E", "_ZTISt12system_error"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt12bad_weak_ptr", "_ZTISt9exception"}};
    auto it = m.find(n);
    return it == m.end() ? nullptr : it->second;
}
static std::string tiName(uint64_t a) { Obj *o = findObj(a); return o ? o->name : ""; }
// does type `t` derive from `target`; *off = offset of target sub-object
static bool tiDerives(uint64_t t, uint64_t target, int64_t *off) {
    *off = 0;
    if (t == target) return true;
    std::string n = tiName(t), tn = tiName(target);
    if (n == tn) return true;
    if (const char *p = stdParent(n)) {
        const char *q = p;
        while (q) { if (tn == q) return true; q = stdParent(q); }
        return false;
    }
    Obj *o = findObj(t);
    if (!o || o->size < 16 || extTI.count(n)) return false;
    uint64_t vt = rd64(t);
    std::string vn = tiName(vt);
    if (vn.find("si_class_type_info") != std::string::npos) return tiDerives(rd64(t + 16), target, off);
    if (vn.find("vmi_class_type_info") != std::string::npos) {
        uint32_t cnt = rd32(t + 20);
        for (uint32_t i = 0; i < cnt; i++) {
            uint64_t b = rd64(t + 24 + 16 * i); int64_t fl = (int64_t)rd64(t + 32 + 16 * i); int64_t o2;
            if (tiDerives(b, target, &o2)) { *off = (fl >> 8) + o2; return true; }
        }
    }
    return false;
}
struct ExcInfo { uint64_t ti; uint64_t dtor; int handlers = 0; };
static std::map<uint64_t, ExcInfo> excs;
static std::vector<uint64_t> tiIds;
static int typeId(uint64_t ti) { for (size_t i = 0; i < tiIds.size(); i++) if (tiIds[i] == ti) return i + 1; tiIds.push_back(ti); return tiIds.size(); }
static bool branchTo(Frame &f, int to, int from) {
    Blk &B = f.fn->blks[to];
    if (!B.phis.empty()) {
        std::vector<Val> vs; vs.reserve(B.phis.size());
        for (auto &p : B.phis) vs.push_back(get(f, p.in[from]));
        for (size_t i = 0; i < vs.size(); i++) f.r[B.phis[i].dst] = vs[i];
    }
    f.blk = to; f.ip = 0;
    return true;
}
static void threadFinished();
static void unwind(uint64_t exc) {
    Thr &t = th[cur];
    uint64_t ti = excs[exc].ti;
    while (!t.st.empty()) {
        Frame &f = t.st.back();
        Inst &x = f.fn->blks[f.blk].in[f.ip];
        if (x.op == Instruction::Invoke) {
            BasicBlock *lpb = cast<InvokeInst>(x.I)->getUnwindDest();
            LandingPadInst *lp = lpb->getLandingPadInst();
            int sel = -1;
            for (unsigned i = 0; i < lp->getNumClauses() && sel < 0; i++) {
                if (lp->isCatch(i)) {
                    Val c = evalConst(cast<Constant>(lp->getClause(i)));
                    int64_t off;
                    if (c.u == 0) sel = typeId(0);
                    else if (tiDerives(ti, c.u, &off)) sel = typeId(c.u);
                } else sel = -1;
            }
            if (sel < 0 && lp->isCleanup()) sel = 0;
            if (sel >= 0) {
                int from = f.blk;
                branchTo(f, x.b1, from);
                // the landingpad instruction itself
                Inst &l = f.fn->blks[f.blk].in[0];
                f.r[l.dst] = Val::G({Val::I(exc, 64), Val::I(sel, 32)});
                f.ip = 1;
                return;
            }
        }
        killAllocas(f);
        t.st.pop_back();
    }
    std::string n = tiName(ti);
    candidate("uncaught", "no unexpected exception", {}, "uncaught exception " + n);
    throw PathEnd();
}
static Val polyFn(const std::string &n, const Val &v0, unsigned w) {
    Val v = fpNorm(v0);
    if (v.k == FPC && !std::isfinite(v.d)) {
        double r = n == "exp" ? std::exp(v.d) : n == "log" ? std::log(v.d) : n == "lgamma" ? std::lgamma(v.d) : n == "sqrt" ? std::sqrt(v.d) : NAN;
        return Val::F(r, w);
    }
    if (v.k == FPC && (!optExact || w == 80)) {
        double r = n == "exp" ? std::exp(v.d) : n == "log" ? std::log(v.d) : n == "lgamma" ? std::lgamma(v.d) : n == "sqrt" ? std::sqrt(v.d) : n == "digamma" ? Sym::digammaD(v.d) : NAN;
        if (w == 32) r = (float)r;
        if (!std::isnan(r)) return Val::F(r, w);
    }
    Poly *p = polyOf(v);
    if (n == "exp") return mkP(S->fexp(p), w);
    if (n == "log") {
        int s = S->sign(p);
        if (s != 2) {
            if (decideAst(S->relZero(p, Sym::EQ))) return Val::F(-INFINITY, w);
            if (decideAst(S->relZero(p, Sym::LT))) return Val::F(NAN, w);
        }
        return mkP(S->flog(p), w);
    }
    if (n == "sqrt") {
        if (S->sign(p) <= 0 && decideAst(S->relZero(p, Sym::LT))) return Val::F(NAN, w);
        if (p->isConst()) { double d = std::sqrt(p->constant().get_d()); if (mpq_class(d) * mpq_class(d) == p->constant()) return Val::F(d, w); }
        return mkP(S->fsqrt(p), w);
    }
    if (n == "lgamma" || n == "digamma") {
        // poles of the real function at 0
        if (S->sign(p) != 2 && decideAst(S->relZero(p, Sym::EQ))) return Val::F(n == "lgamma" ? INFINITY : -INFINITY, w);
    }
    return mkP(S->uf(n, {p}), w);
}
static void doAssert(Ast ok, const std::string &lab) {       // ok must hold on this path
    LabelStat &l = label(lab);
    l.reached++;
    ok = S->simp(ok);
    int tf = S->isTF(ok);
    if (tf == 1) { l.proved++; SH->assertsProved++; return; }
    if (tf == 0) { if (candidate("assert", lab, {})) throw PathEnd(); SH->infeasible++; throw PathEnd(); }
    if (tooLate()) { l.unknown++; SH->truncated++; throw PathEnd(); }
    Ast no = S->mkNot(ok);
    auto q = S->check({no}, true);
    if (q.r == 0) { l.proved++; SH->assertsProved++; return; }
    if (candidate("assert", lab, {no})) { S->assume(ok); }
    else { l.proved++; SH->assertsProved++; }
}
static void doAssertEq(Val a, Val b, double tol, const std::string &lab) {
    a = fpNorm(a); b = fpNorm(b);
    LabelStat &l = label(lab);
    if (optNative && a.k == FPC && b.k == FPC && !isSpecial(a) && !isSpecial(b)) {      // known numbers computed in floating point
        l.reached++;
        if (std::fabs(a.d - b.d) <= tol * (1 + std::max(std::fabs(a.d), std::fabs(b.d)))) { l.proved++; SH->assertsProved++; return; }
        if (!candidate("assert", lab, {}, "known values differ")) SH->infeasible++;
        throw PathEnd();
    }
    if (isSpecial(a) || isSpecial(b)) {
        l.reached++;
        bool same = isSpecial(a) && isSpecial(b) && ((std::isnan(a.d) && std::isnan(b.d)) ? false : a.d == b.d);
        if (same) { l.proved++; return; }
        if (!candidate("assert", lab, {}, "special value")) SH->infeasible++;
        throw PathEnd();
    }
    Poly *d = S->PT.sub(polyOf(a), polyOf(b));
    if (S->isIdenticallyZero(d)) {
        l.reached++; l.proved++; l.algebra++; SH->assertsProved++; SH->assertsAlgebra++;
        return;
    }
    doAssert(S->relZero(d, Sym::EQ), lab);
}
static void addInput(const std::string &n, int kind, Ast a, double lo, double hi, uint32_t atom, int w, const std::string &sv = "") {
    static std::map<std::string, int> cnt;
    int k = cnt[n]++;
    S->inputs.push_back({k ? n + "#" + std::to_string(k) : n, kind, a, lo, hi, atom, w, sv}); }

typedef std::vector<Val> Args;
// external / intercepted function: returns true if handled (result in *ret)
static std::unordered_map<Function *, std::string> intercepted;
static bool externalCall(Function *F, const std::string &nm, Args &a, Val *ret, Inst &x, bool *advance);

static void throwExc(uint64_t exc) { unwind(exc); }

static Val fpMinMax(const Val &a, const Val &b, bool mx, unsigned w) {
    Val x = fpNorm(a), y = fpNorm(b);
    if (x.k == FPC && std::isnan(x.d)) return y;
    if (y.k == FPC && std::isnan(y.d)) return x;
    return decide(fcmp(mx ? CmpInst::FCMP_OGT : CmpInst::FCMP_OLT, x, y)) ? x : y;
}

static bool intrinsic(IntrinsicInst *I, Args &a, Val *ret, Inst &x) {
    unsigned w = x.w;
    switch (I->getIntrinsicID()) {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::assume:
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::invariant_end: case Intrinsic::donothing: return true;
        case Intrinsic::stacksave: *ret = Val::I(0, 64); return true;
        case Intrinsic::invariant_start: *ret = Val::I(0, 64); return true;
        case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect: case Intrinsic::ssa_copy: *ret = a[0]; return true;
        case Intrinsic::threadlocal_address: {
            uint64_t g = concretize(a[0]);
            if (cur == 0) { *ret = a[0]; return true; }     // the first thread uses the global itself
            auto it = tlsCopy.find({cur, g});
            if (it == tlsCopy.end()) {
                auto *gv = cast<GlobalVariable>(I->getArgOperand(0)->stripPointerCasts());
                uint64_t n = alloc(DL->getTypeAllocSize(gv->getValueType()), 'g', gv->getName().str(), true);
                if (gv->hasInitializer()) storeTy(n, evalConst(gv->getInitializer()), gv->getValueType());
                it = tlsCopy.emplace(std::make_pair(cur, g), n).first;
            }
            *ret = Val::I(it->second, 64); return true;
        }
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: memCopy(concretize(a[0]), concretize(a[1]), concretize(a[2])); return true;
        case Intrinsic::memset: memSet(concretize(a[0]), a[1], concretize(a[2])); return true;
        case Intrinsic::fabs: *ret = lift1(a[0], [&](const Val &v0) { Val v = fpNorm(v0); if (v.k == FPC) return Val::F(std::fabs(v.d), v.w); return mkP(S->fabs_(polyOf(v)), v.w); }); return true;
        case Intrinsic::exp: *ret = polyFn("exp", a[0], w); return true;
        case Intrinsic::log: *ret = polyFn("log", a[0], w); return true;
        case Intrinsic::sqrt: *ret = polyFn("sqrt", a[0], w); return true;
        case Intrinsic::pow: {
            Val y = fpNorm(a[1]);
            if (y.k == FPC && y.d == std::floor(y.d) && std::fabs(y.d) <= 32) {
                Val r = Val::F(1, w); int n = std::fabs(y.d);
                for (int i = 0; i < n; i++) r = fparith('*', r, a[0], w);
                *ret = y.d < 0 ? fparith('/', Val::F(1, w), r, w) : r;
                return true;
            }
            if (fpNorm(a[0]).k == FPC && y.k == FPC && !optExact) { *ret = Val::F(std::pow(fpNorm(a[0]).d, y.d), w); return true; }
            *ret = mkP(S->uf("pow", {polyOf(a[0]), polyOf(a[1])}), w); return true;
        }
        case Intrinsic::powi: { int n = (int)(int32_t)concretize(a[1]); Val r = Val::F(1, w); for (int i = 0; i < std::abs(n); i++) r = fparith('*', r, a[0], w); *ret = n < 0 ? fparith('/', Val::F(1, w), r, w) : r; return true; }
        case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: {
            int mode = I->getIntrinsicID() == Intrinsic::floor ? 1 : I->getIntrinsicID() == Intrinsic::ceil ? 2 : 0;
            Val v = fpNorm(a[0]);
            if (v.k == FPC) { *ret = Val::F(mode == 1 ? std::floor(v.d) : mode == 2 ? std::ceil(v.d) : std::trunc(v.d), w); return true; }
            *ret = mkP(S->PT.cst(mpq_class(intPart(polyOf(v), mode))), w); return true;
        }
        case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::lround: case Intrinsic::llround: case Intrinsic::lrint: case Intrinsic::llrint: case Intrinsic::roundeven: {
            auto id = I->getIntrinsicID();
            bool toInt = id == Intrinsic::lround || id == Intrinsic::llround || id == Intrinsic::lrint || id == Intrinsic::llrint, away = id == Intrinsic::round || id == Intrinsic::lround || id == Intrinsic::llround;
            Val v = fpNorm(a[0]); double r;
            if (v.k == FPC) r = away ? std::round(v.d) : std::nearbyint(v.d);
            else {   // halves: away from zero (ties to even differ on a null set only)
                Poly *p = polyOf(v); bool neg = decideAst(S->relZero(p, Sym::LT));
                Val h = fparith('+', v, Val::F(neg ? -0.5 : 0.5, v.w), v.w); Val hn = fpNorm(h);
                r = hn.k == FPC ? std::trunc(hn.d) : mpq_class(intPart(polyOf(hn), 0)).get_d();
            }
            *ret = toInt ? Val::I((uint64_t)(int64_t)r, w) : Val::F(r, w); return true;
        }
        case Intrinsic::fmuladd: case Intrinsic::fma: *ret = fparith('+', fparith('*', a[0], a[1], w), a[2], w); return true;
        case Intrinsic::maxnum: case Intrinsic::maximum: *ret = fpMinMax(a[0], a[1], true, w); return true;
        case Intrinsic::minnum: case Intrinsic::minimum: *ret = fpMinMax(a[0], a[1], false, w); return true;
        case Intrinsic::copysign: { Val s = fpNorm(a[1]), v = fpNorm(a[0]); if (s.k == FPC && v.k == FPC) { *ret = Val::F(std::copysign(v.d, s.d), w); return true; } 
            Val n = S ? lift1(v, [&](const Val &q) { Val u = fpNorm(q); if (u.k == FPC) return Val::F(std::fabs(u.d), w); return mkP(S->fabs_(polyOf(u)), w); }) : v;
            bool neg = s.k == FPC ? std::signbit(s.d) : decideAst(S->relZero(polyOf(s), Sym::LT));
            *ret = neg ? fparith('-', Val::F(0, w), n, w) : n; return true; }
        case Intrinsic::smax: *ret = decide(icmp(CmpInst::ICMP_SGT, a[0], a[1], w)) ? a[0] : a[1]; return true;
        case Intrinsic::smin: *ret = decide(icmp(CmpInst::ICMP_SLT, a[0], a[1], w)) ? a[0] : a[1]; return true;
        case Intrinsic::umax: *ret = decide(icmp(CmpInst::ICMP_UGT, a[0], a[1], w)) ? a[0] : a[1]; return true;
        case Intrinsic::umin: *ret = decide(icmp(CmpInst::ICMP_ULT, a[0], a[1], w)) ? a[0] : a[1]; return true;
        case Intrinsic::abs: *ret = decide(icmp(CmpInst::ICMP_SLT, a[0], Val::I(0, w), w)) ? intBin(Instruction::Sub, Val::I(0, w), a[0], w) : a[0]; return true;
        case Intrinsic::usub_sat: *ret = decide(icmp(CmpInst::ICMP_UGT, a[0], a[1], w)) ? intBin(Instruction::Sub, a[0], a[1], w) : Val::I(0, w); return true;
        case Intrinsic::uadd_sat: { Val s = intBin(Instruction::Add, a[0], a[1], w); *ret = decide(icmp(CmpInst::ICMP_ULT, s, a[0], w)) ? Val::I(~0ull, w) : s; return true; }
        case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
            unsigned ww = a[0].w;
            auto id = I->getIntrinsicID();
            unsigned op = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow ? Instruction::Mul : id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow ? Instruction::Add : Instruction::Sub;
            bool sg = id == Intrinsic::smul_with_overflow || id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow;
            Val r = intBin(op, a[0], a[1], ww), ov;
            if (a[0].k == INT && a[1].k == INT && ww <= 64) {
                auto sx = [&](uint64_t v) { return ww < 64 && (v >> (ww - 1)) ? (int64_t)(v | ~((1ull << ww) - 1)) : (int64_t)v; };
                __int128 p = sg ? (op == Instruction::Mul ? (__int128)sx(a[0].u) * sx(a[1].u) : op == Instruction::Add ? (__int128)sx(a[0].u) + sx(a[1].u) : (__int128)sx(a[0].u) - sx(a[1].u)) : 0;
                unsigned __int128 q = sg ? 0 : (op == Instruction::Mul ? (unsigned __int128)a[0].u * a[1].u : op == Instruction::Add ? (unsigned __int128)a[0].u + a[1].u : (unsigned __int128)0);
                bool o = sg ? p != (__int128)sx(r.u) : op == Instruction::Sub ? a[0].u < a[1].u : q != (unsigned __int128)r.u;
                ov = Val::I(o, 1);
            } else {
                unsigned e = ww * 2;
                Ast A = bvOf(a[0]), B = bvOf(a[1]);
                Ast p = sg ? Z3_mk_sign_ext(S->c, ww, A) : Z3_mk_zero_ext(S->c, ww, A), q = sg ? Z3_mk_sign_ext(S->c, ww, B) : Z3_mk_zero_ext(S->c, ww, B);
                Ast f = op == Instruction::Mul ? Z3_mk_bvmul(S->c, p, q) : op == Instruction::Add ? Z3_mk_bvadd(S->c, p, q) : Z3_mk_bvsub(S->c, p, q);
                Ast rr = sg ? Z3_mk_sign_ext(S->c, ww, bvOf(r)) : Z3_mk_zero_ext(S->c, ww, bvOf(r));
                ov = mkB(Z3_mk_not(S->c, Z3_mk_eq(S->c, f, rr))); (void)e;
            }
            *ret = Val::G({r, ov}); return true;
        }
        case Intrinsic::ctpop: *ret = Val::I(__builtin_popcountll(concretize(a[0])), w); return true;
        case Intrinsic::ctlz: { uint64_t u = concretize(a[0]); *ret = Val::I(u ? __builtin_clzll(u) - (64 - w) : w, w); return true; }
        case Intrinsic::cttz: { uint64_t u = concretize(a[0]); *ret = Val::I(u ? __builtin_ctzll(u) : w, w); return true; }
        case Intrinsic::bswap: {
            Val v = a[0]; Ast r = nullptr; Ast b = bvOf(v);
            for (unsigned i = 0; i < w / 8; i++) { Ast e = Z3_mk_extract(S->c, i * 8 + 7, i * 8, b); r = r ? Z3_mk_concat(S->c, r, e) : e; }
            *ret = mkS(r, w); return true;
        }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            unsigned sh = concretize(a[2]) % w; if (I->getIntrinsicID() == Intrinsic::fshr) sh = sh ? w - sh : 0;
            if (I->getIntrinsicID() == Intrinsic::fshr && sh == 0) { *ret = a[1]; return true; }
            if (!sh) { *ret = a[0]; return true; }
            *ret = intBin(Instruction::Or, intBin(Instruction::Shl, a[0], Val::I(sh, w), w), intBin(Instruction::LShr, a[1], Val::I(w - sh, w), w), w); return true;
        }
        case Intrinsic::objectsize: *ret = Val::I(~0ull, w); return true;
        case Intrinsic::is_constant: *ret = Val::I(0, 1); return true;
        case Intrinsic::eh_typeid_for: *ret = Val::I(typeId(concretize(a[0])), 32); return true;
        case Intrinsic::trap: candidate("abort", "no abort", {}, "llvm.trap"); throw PathEnd();
        case Intrinsic::is_fpclass: {
            Val v = fpNorm(a[0]); unsigned m = concretize(a[1]);
            if (v.k == FPC) {
                unsigned c = std::isnan(v.d) ? 3 : std::isinf(v.d) ? (v.d < 0 ? 4 : 0x200) : v.d == 0 ? (std::signbit(v.d) ? 0x20 : 0x40) : std::fpclassify(v.d) == FP_SUBNORMAL ? (v.d < 0 ? 0x10 : 0x80) : (v.d < 0 ? 8 : 0x100);
                *ret = Val::I((m & c) != 0, 1); return true;
            }
            if ((m & ~0x207u) == 0) { *ret = Val::I(0, 1); return true; }
            if ((m & 0x1f8) == 0x1f8) { *ret = Val::I(1, 1); return true; }
            // a finite real: negative, zero or positive (subnormal numbers count as normal)
            int rel = (m & 8 ? 4 : 0) | (m & 0x40 ? 1 : 0) | (m & 0x100 ? 2 : 0);
            *ret = rel == 0 ? Val::I(0, 1) : rel == 7 ? Val::I(1, 1) : fcmp(rel, v, Val::F(0, v.w)); return true;
        }
        default: break;
    }
    throw Unsupported("intrinsic " + I->getCalledFunction()->getName().str());
}

static uint64_t errnoAddr = 0;
static std::map<uint64_t, int> condWaiters;
static bool externalCall(Function *F, const std::string &nm, Args &a, Val *ret, Inst &x, bool *advance) {
    Thr &t = th[cur];
    auto R = [&](Val v) { *ret = v; return true; };
    // ---------------- harness interface
    if (nm.compare(0, 3, "vp_") == 0) {
        if (nm == "vp_real") {
            std::string n = rdStr(a[0].u);
            Atom at; at.kind = A_INPUT; at.name = n; at.lo = fpNorm(a[1]).d; at.hi = fpNorm(a[2]).d;
            at.sign = at.lo > 0 ? 2 : at.lo == 0 ? 1 : at.hi < 0 ? -2 : at.hi == 0 ? -1 : 0;
            at.nonzero = std::abs(at.sign) == 2;
            uint32_t id = S->newAtom(at);
            addInput(n, 0, S->atoms[id].v, at.lo, at.hi, id, 0);
            return R(Val::P(S->PT.atom(id), 64));
        }
        if (nm == "vp_pos") {          // open interval (0, hi]
            std::string n = rdStr(a[0].u);
            Atom at; at.kind = A_INPUT; at.name = n; at.lo = 0; at.hi = fpNorm(a[1]).d; at.sign = 2; at.nonzero = true;
            uint32_t id = S->newAtom(at);
            addInput(n, 0, S->atoms[id].v, at.lo, at.hi, id, 0);
            return R(Val::P(S->PT.atom(id), 64));
        }
        if (nm == "vp_int" || nm == "vp_bits") {
            std::string n = rdStr(a[0].u);
            bool bits = nm == "vp_bits";
            unsigned w = bits ? concretize(a[1]) : 32;
            char b[160]; snprintf(b, 160, "%s_b%d", n.c_str(), S->fresh++);
            Ast v = Z3_mk_const(S->c, Z3_mk_string_symbol(S->c, b), Z3_mk_bv_sort(S->c, w));
            addInput(n, bits ? 2 : 1, v, 0, 0, 0, w);
            if (!bits) {
                int32_t lo = (int32_t)concretize(a[1]), hi = (int32_t)concretize(a[2]);
                S->bvRange[v] = {lo, hi};
                S->assume(S->mkAnd({Z3_mk_bvsle(S->c, S->mkBV((uint32_t)lo, 32), v), Z3_mk_bvsle(S->c, v, S->mkBV((uint32_t)hi, 32))}));
            }
            if (bits && w < 64) return R(mkS(Z3_mk_zero_ext(S->c, 64 - w, v), 64));
            return R(Val::S(v, w));
        }
        if (nm == "vp_choice") {
            std::string n = rdStr(a[0].u);
            int k = concretize(a[1]);
            int v = choose(k);
            addInput(n, 3, nullptr, 0, 0, 0, 0, std::to_string(v));
            return R(Val::I(v, 32));
        }
        if (nm == "vp_assume") {
            Val c = a[0];
            Ast b = c.k == INT ? (c.u ? S->T() : S->Fa()) : c.w == 1 ? boolOf(c) : Z3_mk_not(S->c, Z3_mk_eq(S->c, bvOf(c), S->mkBV(0, c.w)));
            b = S->simp(b);
            if (S->isTF(b) == 0) { SH->assumeEnd++; throw PathEnd(); }
            if (S->isTF(b) == 1) return true;
            if (S->check({b}).r == 0) { SH->assumeEnd++; throw PathEnd(); }
            S->assume(b);
            return true;
        }
        if (nm == "vp_assert") {
            Val c = a[0];
            Ast b = c.k == INT ? (c.u ? S->T() : S->Fa()) : c.w == 1 ? boolOf(c) : Z3_mk_not(S->c, Z3_mk_eq(S->c, bvOf(c), S->mkBV(0, c.w)));
            doAssert(b, rdStr(a[1].u));
            return true;
        }
        if (nm == "vp_assert_eq") { doAssertEq(a[0], a[1], fpNorm(a[2]).d, rdStr(a[3].u)); return true; }
        if (optNative && (nm == "vp_assert_le" || nm == "vp_assert_lt")) {      // known numbers computed in floating point
            Val x = fpNorm(a[0]), y = fpNorm(a[1]); double tol = fpNorm(a[2]).d;
            if (tol > 0 && x.k == FPC && y.k == FPC && std::isfinite(x.d) && std::isfinite(y.d)) {
                doAssert(x.d <= y.d + tol * (1 + std::max(std::fabs(x.d), std::fabs(y.d))) ? S->T() : S->Fa(), rdStr(a[3].u));
                return true;
            }
        }
        if (nm == "vp_assert_le") {       // a <= b
            Val p = fcmp(CmpInst::FCMP_OLE, a[0], a[1]);
            doAssert(p.k == INT ? (p.u ? S->T() : S->Fa()) : p.a, rdStr(a[3].u));
            return true;
        }
        if (nm == "vp_assert_lt") {
            Val p = fcmp(CmpInst::FCMP_OLT, a[0], a[1]);
            doAssert(p.k == INT ? (p.u ? S->T() : S->Fa()) : p.a, rdStr(a[3].u));
            return true;
        }
        if (nm == "vp_assert_bits") { Val p = icmp(CmpInst::ICMP_EQ, a[0], a[1], a[0].w); doAssert(p.k == INT ? (p.u ? S->T() : S->Fa()) : p.a, rdStr(a[2].u)); return true; }
        if (nm == "vp_digamma") return R(polyFn("digamma", a[0], 64));
        if (nm == "vp_exp") return R(polyFn("exp", a[0], 64));
        if (nm == "vp_strtod") { std::string t = rdStr(a[0].u); return R(Val::F(concretize(a[1]) == 32 ? (double)strtof(t.c_str(), nullptr) : strtod(t.c_str(), nullptr), 64)); }
        if (nm == "vp_strtod_len") { std::string t = rdStr(a[0].u); char *e; strtod(t.c_str(), &e); return R(Val::I(e - t.c_str(), 64)); }
        if (nm == "vp_symbolic") return R(Val::I(1, 32));
        if (nm == "vp_is_finite") { Val v = fpNorm(a[0]); return R(Val::I(!(v.k == FPC && !std::isfinite(v.d)), 32)); }
        if (nm == "vp_tid") return R(Val::I(cur, 32));
        if (nm == "vp_branch") { return R(Val::I(decide(a[0].w == 1 ? a[0] : mkB(Z3_mk_not(S->c, Z3_mk_eq(S->c, bvOf(a[0]), S->mkBV(0, a[0].w))))), 32)); }
        if (nm == "vp_concrete") return R(Val::I(concretize(a[0]), a[0].w));
        if (nm == "vp_note") { fprintf(stderr, "[note path %lu] %s\n", (unsigned long)myPath, rdStr(a[0].u).c_str()); return true; }
        if (nm == "vp_show") {
            Val v = a[1];
            std::string s = rdStr(a[0].u);
            if (v.k == FPC) fprintf(stderr, "[show] %s = %.17g\n", s.c_str(), v.d);
            else fprintf(stderr, "[show] %s = %s\n", s.c_str(), Z3_ast_to_string(S->c, v.k == POLY ? S->polyAst(v.p) : bvOf(v)));
            return true;
        }
        if (nm == "vp_end") { throw PathEnd(); }
        if (nm == "vp_yield") {
            if (!t.go) { reschedule(); *advance = false; return true; }
            t.go = false;
            return true;
        }
        throw Unsupported("unknown harness call " + nm);
    }
    // ---------------- memory
    if (nm == "malloc" || nm == "_Znwm" || nm == "_Znam" || nm == "_ZnwmRKSt9nothrow_t") return R(Val::I(alloc(concretize(a[0]), 'h', "heap in " + th[cur].st.back().fn->F->getName().str().substr(0, 60)), 64));
    if (nm == "_ZnwmSt11align_val_t" || nm == "_ZnamSt11align_val_t") return R(Val::I(alloc(concretize(a[0]), 'h', "heap", false, concretize(a[1])), 64));
    if (nm == "aligned_alloc") return R(Val::I(alloc(concretize(a[1]), 'h', "heap", false, concretize(a[0])), 64));
    if (nm == "calloc") return R(Val::I(alloc(concretize(a[0]) * concretize(a[1]), 'h', "heap", true), 64));
    if (nm == "free" || nm == "_ZdlPv" || nm == "_ZdlPvm" || nm == "_ZdaPv" || nm == "_ZdaPvm" || nm == "_ZdlPvSt11align_val_t" || nm == "_ZdlPvmSt11align_val_t") {
        uint64_t p = concretize(a[0]);
        if (!p) return true;
        Obj *o = findObj(p);
        if (!o || o->base != p || o->kind != 'h') throw MemErr{"free of invalid pointer"};
        if (!o->alive) throw MemErr{"double free"};
        if (o->size) race(*o, 0, o->size, true);
        o->alive = false; o->b.clear(); o->b.shrink_to_fit(); o->m.clear(); o->m.shrink_to_fit(); o->cells.clear(); o->sh.clear();
        return true;
    }
    if (nm == "realloc") {
        uint64_t p = concretize(a[0]), n = concretize(a[1]);
        uint64_t q = alloc(n, 'h', "heap");
        if (p) { Obj *o = findObj(p); if (!o || o->base != p || !o->alive) throw MemErr{"realloc of invalid pointer"}; memCopy(q, p, std::min(n, o->size)); findObj(p)->alive = false; }
        return R(Val::I(q, 64));
    }
    if (nm == "memcpy" || nm == "memmove") { memCopy(concretize(a[0]), concretize(a[1]), concretize(a[2])); return R(a[0]); }
    if (nm == "memset") { memSet(concretize(a[0]), castVal(Instruction::Trunc, a[1], Type::getInt32Ty(M->getContext()), Type::getInt8Ty(M->getContext())), concretize(a[2])); return R(a[0]); }
    if (nm == "snprintf" || nm == "sprintf") {
        size_t fi = nm == "snprintf" ? 2 : 1, ai = fi + 1;
        std::string f = rdStr(concretize(a[fi])), o;
        for (size_t i = 0; i < f.size(); i++) {
            if (f[i] != '%') { o += f[i]; continue; }
            if (f[i + 1] == '%') { o += '%'; i++; continue; }
            std::string spec = "%"; i++;
            while (i < f.size() && strchr("-+ #0123456789.*", f[i])) { if (f[i] == '*') spec += std::to_string((int)concretize(a.at(ai++))); else spec += f[i]; i++; }
            std::string len; while (i < f.size() && strchr("hlzjtL", f[i])) len += f[i++];
            char c = i < f.size() ? f[i] : 0, buf[512];
            if (ai >= a.size()) throw Unsupported("too few arguments for " + nm);
            const Val &v = a[ai++];
            if (strchr("diuxXoc", c)) {
                uint64_t u = concretize(v); bool lng = len.find('l') != std::string::npos || len == "z" || len == "j" || len == "t";
                if (c == 'c') snprintf(buf, 512, (spec + "c").c_str(), (int)u);
                else if (c == 'd' || c == 'i') snprintf(buf, 512, (spec + "lld").c_str(), lng ? (long long)u : (long long)(int)u);
                else snprintf(buf, 512, (spec + "ll" + c).c_str(), lng ? (unsigned long long)u : (unsigned long long)(unsigned)u);
                o += buf;
            } else if (c == 's') { snprintf(buf, 512, (spec + "s").c_str(), rdStr(concretize(v)).c_str()); o += buf; }
            else if (strchr("fFgGeE", c)) { Val d = fpNorm(v); if (d.k != FPC) throw Unsupported("text of a symbolic number"); snprintf(buf, 512, (spec + c).c_str(), d.d); o += buf; }
            else throw Unsupported("format of " + nm);
        }
        size_t cap = nm == "snprintf" ? concretize(a[1]) : o.size() + 1;
        if (cap) { Type *b8 = Type::getInt8Ty(M->getContext()); uint64_t d = concretize(a[0]); size_t n = std::min(cap - 1, o.size()); for (size_t i = 0; i < n; i++) storeTy(d + i, Val::I((unsigned char)o[i], 8), b8); storeTy(d + n, Val::I(0, 8), b8); }
        return R(Val::I(o.size(), 32));
    }
    if (nm == "printf" || nm == "fprintf" || nm == "puts" || nm == "putchar" || nm == "fflush" || nm == "fputs") return R(Val::I(0, 32));
    // ---------------- math
    static std::map<std::string, const char *> mf = {{"exp", "exp"}, {"expf", "exp"}, {"log", "log"}, {"logf", "log"}, {"lgamma", "lgamma"}, {"lgammaf", "lgamma"}, {"lgamma_r", "lgamma"}, {"lgammaf_r", "lgamma"},
        {"sqrt", "sqrt"}, {"sqrtf", "sqrt"}, {"tgamma", "tgamma"}, {"tgammaf", "tgamma"}, {"cos", "cos"}, {"sin", "sin"}};
    {
        auto it = mf.find(nm);
        if (it != mf.end()) return R(polyFn(it->second, a[0], x.w));
    }
    if (nm == "fabs" || nm == "fabsf") { Val v = fpNorm(a[0]); if (v.k == FPC) return R(Val::F(std::fabs(v.d), v.w)); return R(mkP(S->fabs_(polyOf(v)), v.w)); }
    if (nm == "pow" || nm == "powf") {
        Val b = fpNorm(a[0]), e = fpNorm(a[1]);
        if (e.k == FPC && e.d == std::floor(e.d) && std::fabs(e.d) <= 32) {
            Val r = Val::F(1, x.w); int n = std::fabs(e.d);
            for (int i = 0; i < n; i++) r = fparith('*', r, b, x.w);
            return R(e.d < 0 ? fparith('/', Val::F(1, x.w), r, x.w) : r);
        }
        return R(mkP(S->uf("pow", {polyOf(b), polyOf(e)}), x.w));
    }
    if (nm == "floor" || nm == "ceil" || nm == "trunc" || nm == "floorf" || nm == "ceilf") {
        Val v = fpNorm(a[0]); int mode = nm[0] == 'f' ? 1 : nm[0] == 'c' ? 2 : 0;
        if (v.k == FPC) return R(Val::F(mode == 1 ? std::floor(v.d) : mode == 2 ? std::ceil(v.d) : std::trunc(v.d), x.w));
        return R(mkP(S->PT.cst(mpq_class(intPart(polyOf(v), mode))), x.w));
    }
    if (nm == "fmax" || nm == "fmaxf") return R(fpMinMax(a[0], a[1], true, x.w));
    if (nm == "fmin" || nm == "fminf") return R(fpMinMax(a[0], a[1], false, x.w));
    // long double helpers used by <random>
    // ---------------- exceptions
    if (nm == "__cxa_allocate_exception") return R(Val::I(alloc(concretize(a[0]) + 16, 'h', "exception", true), 64));
    if (nm == "__cxa_free_exception") return true;
    if (nm == "__cxa_throw") {
        uint64_t e = a[0].u;
        excs[e] = {a[1].u, a[2].u, 0};
        *advance = false;
        throwExc(e);
        return true;
    }
    if (nm == "__cxa_begin_catch") { uint64_t e = a[0].u; t.caught.push_back(e); return R(a[0]); }
    if (nm == "__cxa_get_exception_ptr") return R(a[0]);
    if (nm == "__cxa_end_catch") { if (!t.caught.empty()) t.caught.pop_back(); return true; }
    if (nm == "__cxa_rethrow") { uint64_t e = t.caught.back(); *advance = false; throwExc(e); return true; }
    if (nm == "_Unwind_Resume") { *advance = false; throwExc(a[0].u); return true; }
    if (nm == "__clang_call_terminate" || nm == "_ZSt9terminatev" || nm == "abort" || nm == "__cxa_pure_virtual" || nm == "__cxa_call_unexpected") {
        candidate("abort", "no abort", {}, nm);
        throw PathEnd();
    }
    if (nm == "exit" || nm == "_exit") { candidate("abort", "no abort", {}, nm); throw PathEnd(); }
    if (nm == "__cxa_guard_acquire") { Obj &o = chk(a[0].u, 1, false); bool done = o.b[a[0].u - o.base]; return R(Val::I(!done, 32)); }
    if (nm == "__cxa_guard_release") { Obj &o = chk(a[0].u, 1, true); storeBytes(o, a[0].u - o.base, Val::I(1, 8), 1); return true; }
    if (nm == "__cxa_guard_abort" ) return true;
    if (nm == "__cxa_atexit" || nm == "__cxa_thread_atexit") return R(Val::I(0, 32));
    if (nm == "__dynamic_cast") {
        uint64_t p = concretize(a[0]);
        if (!p) return R(Val::I(0, 64));
        uint64_t vp = rd64(p);
        int64_t top = (int64_t)rd64(vp - 16); uint64_t ti = rd64(vp - 8), full = p + top; int64_t off;
        if (!tiDerives(ti, a[2].u, &off)) return R(Val::I(0, 64));
        return R(Val::I(full + off, 64));
    }
    if (nm == "__errno_location") { if (!errnoAddr) errnoAddr = alloc(16, 'g', "errno", true); return R(Val::I(errnoAddr, 64)); }
    // ---------------- threads
    if (nm == "pthread_mutex_lock" || nm == "pthread_mutex_trylock" || nm == "pthread_mutex_clocklock" || nm == "pthread_mutex_timedlock" || nm == "pthread_rwlock_wrlock") {
        uint64_t m = concretize(a[0]);
        if (!t.go) { reschedule(); *advance = false; return true; }
        t.go = false;
        if (mtxOwner.count(m)) {
            // glibc's recursive mutexes carry their kind (1) behind the owner; the depth is kept aside
            if (mtxOwner[m] == cur && nm[8] == 'm' && (rd64(m + 16) & 3) == 1) { mtxDepth[m]++; return R(Val::I(0, 32)); }
            if (nm == "pthread_mutex_trylock") return R(Val::I(16, 32));
            if (mtxOwner[m] == cur) { candidate("deadlock", "every schedule terminates", {}, "relock of an owned mutex"); throw PathEnd(); }
            t.s = T_MUTEX; t.mtx = m;
            reschedule();
            *advance = false;
            return true;
        }
        mtxOwner[m] = cur;
        vcAcquire(m);
        return R(Val::I(0, 32));
    }
    if (nm == "pthread_mutex_unlock" || nm == "pthread_rwlock_unlock") {
        uint64_t m = concretize(a[0]);
        auto it = mtxOwner.find(m);
        if (it == mtxOwner.end() || it->second != cur) { candidate("misuse", "mutex discipline", {}, "unlock of a mutex not held"); throw PathEnd(); }
        { auto d = mtxDepth.find(m); if (d != mtxDepth.end() && d->second > 0) { d->second--; return R(Val::I(0, 32)); } }
        mtxOwner.erase(it);
        vcRelease(m);
        return R(Val::I(0, 32));
    }
    if (nm == "sched_yield" || nm == "nanosleep" || nm == "clock_nanosleep" || nm == "usleep") {   // the next thread that can run goes on (fair, no choice)
        if (!t.yielded && th.size() > 1) {
            int n = th.size(), best = -1;
            for (int e : enabledThreads()) if (e != cur && (best < 0 || (e - cur + n) % n < (best - cur + n) % n)) best = e;
            if (best >= 0 && th[best].s != T_COND) { t.yielded = true; activate(best); *advance = false; return true; }
        }
        t.yielded = false;
        return R(Val::I(0, 32));
    }
    if (nm == "pthread_mutex_init" || nm == "pthread_mutex_destroy") return R(Val::I(0, 32));
    if (nm == "_ZNSt18condition_variableC1Ev" || nm == "_ZNSt18condition_variableD1Ev" || nm == "_ZNSt18condition_variableC2Ev" || nm == "_ZNSt18condition_variableD2Ev") return true;
    if (nm == "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE" || nm == "pthread_cond_wait" || nm == "pthread_cond_clockwait" || nm == "pthread_cond_timedwait") {
        bool std_ = nm[0] == '_';
        bool timed = nm.find("clockwait") != std::string::npos || nm.find("timedwait") != std::string::npos;
        uint64_t cv = concretize(a[0]), m = std_ ? rd64(concretize(a[1])) : concretize(a[1]);
        if (t.s == T_RUN && !t.notified) {
            if (timed && timeouts < 2 && choose(2) == 1) { timeouts++; if (!std_) *ret = Val::I(110, 32); return true; }   // immediate time-out
            if (mtxOwner.count(m) == 0 || mtxOwner[m] != cur) { candidate("misuse", "mutex discipline", {}, "cond wait without the mutex"); throw PathEnd(); }
            mtxOwner.erase(m);
            vcRelease(m);
            t.s = T_COND; t.obj = cv; t.mtx = m; t.go = false; t.timed = timed; t.timedOut = false;
            reschedule();
            *advance = false;
            return true;
        }
        // resumed: re-acquire the mutex
        if (mtxOwner.count(m)) { t.s = T_MUTEX; t.mtx = m; reschedule(); *advance = false; return true; }
        t.notified = false; t.go = false;
        mtxOwner[m] = cur;
        vcAcquire(m);
        if (!std_) *ret = Val::I(t.timedOut ? 110 : 0, 32);
        t.timed = t.timedOut = false;
        return true;
    }
    if (nm == "_ZNSt18condition_variable10notify_oneEv" || nm == "pthread_cond_signal" || nm == "_ZNSt18condition_variable10notify_allEv" || nm == "pthread_cond_broadcast") {
        bool all = nm.find("all") != std::string::npos || nm.find("broadcast") != std::string::npos;
        uint64_t cv = concretize(a[0]);
        if (!t.go) { reschedule(); *advance = false; return true; }
        t.go = false;
        std::vector<int> ws;
        for (size_t i = 0; i < th.size(); i++) if (th[i].s == T_COND && th[i].obj == cv) ws.push_back(i);
        if (!ws.empty()) {
            if (all) for (int w : ws) { th[w].s = T_MUTEX; th[w].notified = true; }
            else { int k = ws.size() == 1 ? 0 : choose(ws.size()); if (ws.size() > 1) schedLog.push_back(1000 + ws[k]); th[ws[k]].s = T_MUTEX; th[ws[k]].notified = true; }
        }
        if (nm[0] != '_') *ret = Val::I(0, 32);
        return true;
    }
    if (nm == "_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE") {
        uint64_t idp = concretize(a[0]), up = concretize(a[1]);
        uint64_t state = rd64(up);
        if (th.size() >= 2000) throw Unsupported("too many threads");
        Thr n;
        int id = th.size();
        for (int i = 0; i < MT; i++) n.vc[i] = th[cur].vc[i];
        // a place in the vector clocks: a fresh one, else that of a thread that has ended and whose end is known to the creator
        n.slot = -1;
        { bool used[MT] = {0}, live[MT] = {0}; uint32_t last[MT] = {0};
          for (auto &q : th) { used[q.slot] = true; if (q.s != T_DONE) live[q.slot] = true; last[q.slot] = std::max(last[q.slot], q.vc[q.slot]); }
          for (int i = 0; i < MT && n.slot < 0; i++) if (!used[i]) n.slot = i;
          for (int i = 0; i < MT && n.slot < 0; i++) if (!live[i] && th[cur].vc[i] >= last[i]) n.slot = i;
          if (n.slot < 0) throw Unsupported("too many threads");
          n.vc[n.slot] = last[n.slot] + 1; }
        th[cur].vc[th[cur].slot]++;
        everThreads = true;
        th.push_back(n);
        uint64_t vt = rd64(state);
        Function *run = faddr[rd64(vt + 16)];
        pushFrame(th.back(), run, {Val::I(state, 64)}, -1);
        { Obj &o = chk(idp, 8, true); storeBytes(o, idp - o.base, Val::I(id + 1, 64), 8); }
        { Obj &o = chk(up, 8, true); storeBytes(o, up - o.base, Val::I(0, 64), 8); }
        return true;
    }
    if (nm == "_ZNSt6thread4joinEv") {
        uint64_t p = concretize(a[0]);
        int id = (int)rd64(p) - 1;
        if (id < 0 || id >= (int)th.size()) { candidate("misuse", "thread discipline", {}, "join of a non-joinable thread"); throw PathEnd(); }
        if (!t.go) { if (th[id].s == T_DONE) t.go = true; else { t.s = T_JOIN; t.jt = id; reschedule(); *advance = false; return true; } }
        t.go = false;
        if (th[id].s != T_DONE) { t.s = T_JOIN; t.jt = id; reschedule(); *advance = false; return true; }
        for (int i = 0; i < MT; i++) th[cur].vc[i] = std::max(th[cur].vc[i], th[id].vc[i]);
        { Obj &o = chk(p, 8, true); storeBytes(o, p - o.base, Val::I(0, 64), 8); }
        return true;
    }
    if (nm == "_ZNSt6thread20hardware_concurrencyEv") return R(Val::I(2, 32));
    if (nm == "_ZNSt6thread6_StateD2Ev") return true;
    if (nm == "pthread_self") return R(Val::I(cur + 1, 64));
    if (nm == "pthread_create" || nm == "__pthread_key_create") return R(Val::I(0, 32));
    // ---------------- intercepted library / repository functions
    return false;
}
static void threadFinished() {
    Thr &t = th[cur];
    t.s = T_DONE;
    if (cur == 0) return;
    reschedule();
    th[cur].go = th[cur].go;
}

// ------------------------------------------------------------------ main loop
static void step() {
    Thr &t = th[cur];
    Frame &f = t.st.back();
    Inst &x = f.fn->blks[f.blk].in[f.ip];
    if ((++ninst & 0xffff) == 0) {
        if (tooLate()) { SH->truncated++; throw PathEnd(); }
        if (ninst > optMaxInst) { candidate("nontermination", "terminates within the step budget", {}, "step budget exceeded"); SH->truncated++; throw PathEnd(); }
    }
    auto O = [&](int i) { return get(f, x.o[i]); };
    // std::atomic operations are scheduling points (reference counts use weaker orders and are not)
    if (th.size() > 1 && (x.op == Instruction::Load || x.op == Instruction::Store || x.op == Instruction::AtomicRMW || x.op == Instruction::AtomicCmpXchg)) {
        AtomicOrdering ord = x.op == Instruction::Load ? cast<LoadInst>(x.I)->getOrdering() : x.op == Instruction::Store ? cast<StoreInst>(x.I)->getOrdering() :
            x.op == Instruction::AtomicRMW ? cast<AtomicRMWInst>(x.I)->getOrdering() : cast<AtomicCmpXchgInst>(x.I)->getSuccessOrdering();
        if (ord == AtomicOrdering::SequentiallyConsistent) {
            if (!t.go) { reschedule(); return; }
            t.go = false;
        }
    }
    switch (x.op) {
        case Instruction::Ret: {
            Val r; bool has = !x.o.empty();
            if (has) r = O(0);
            int dst = f.retDst;
            killAllocas(f);
            t.st.pop_back();
            if (t.st.empty()) { threadFinished(); return; }
            Frame &c = t.st.back();
            Inst &ci = c.fn->blks[c.blk].in[c.ip];
            if (dst >= 0 && has) c.r[dst] = r;
            if (ci.op == Instruction::Invoke) branchTo(c, ci.b0, c.blk); else c.ip++;
            return;
        }
        case Instruction::Br:
            if (x.b1 < 0) branchTo(f, x.b0, f.blk);
            else { bool c = decide(O(0)); branchTo(f, c ? x.b0 : x.b1, f.blk); }
            return;
        case Instruction::Switch: {
            Val v = O(0);
            int to = x.b0;
            for (size_t i = 1; i < x.o.size(); i++) if (decide(icmp(CmpInst::ICMP_EQ, v, x.o[i].c, v.w))) { to = x.scale[i - 1]; break; }
            branchTo(f, to, f.blk);
            return;
        }
        case Instruction::Unreachable: candidate("unreachable", "no undefined behaviour", {}, "unreachable reached"); throw PathEnd();
        case Instruction::Resume: { Val v = O(0); uint64_t e = (*v.agg)[0].u; killAllocas(f); t.st.pop_back(); if (t.st.empty()) { candidate("uncaught", "no unexpected exception", {}, tiName(excs[e].ti)); throw PathEnd(); } unwind(e); return; }
        case Instruction::Alloca: {
            auto *ai = cast<AllocaInst>(x.I);
            uint64_t n = DL->getTypeAllocSize(ai->getAllocatedType()) * concretize(O(0));
            uint64_t a = alloc(n, 's', "stack in " + f.fn->F->getName().str().substr(0, 60), false, ai->getAlign().value());
            f.allocas.push_back(a);
            f.r[x.dst] = Val::I(a, 64);
            break;
        }
        case Instruction::Load: {
            uint64_t a = concretize(O(0));
            if (cast<LoadInst>(x.I)->isAtomic()) { vcAcquire(a); int s = optRaces; optRaces = 0; Val v = loadTy(a, x.I->getType()); optRaces = s; f.r[x.dst] = v; }
            else f.r[x.dst] = loadTy(a, x.I->getType());
            break;
        }
        case Instruction::Store: {
            uint64_t a = concretize(O(1));
            if (cast<StoreInst>(x.I)->isAtomic()) { int s = optRaces; optRaces = 0; storeTy(a, O(0), x.I->getOperand(0)->getType()); optRaces = s; vcRelease(a); }
            else storeTy(a, O(0), x.I->getOperand(0)->getType());
            break;
        }
        case Instruction::AtomicRMW: {
            auto *rm = cast<AtomicRMWInst>(x.I);
            uint64_t a = concretize(O(0));
            vcAcquire(a);
            int s = optRaces; optRaces = 0;
            Val old = loadTy(a, rm->getType()), v = O(1), n;
            unsigned w = tyW(rm->getType());
            switch (rm->getOperation()) {
                case AtomicRMWInst::Xchg: n = v; break;
                case AtomicRMWInst::Add: n = intBin(Instruction::Add, old, v, w); break;
                case AtomicRMWInst::Sub: n = intBin(Instruction::Sub, old, v, w); break;
                case AtomicRMWInst::And: n = intBin(Instruction::And, old, v, w); break;
                case AtomicRMWInst::Or: n = intBin(Instruction::Or, old, v, w); break;
                default: throw Unsupported("atomicrmw");
            }
            storeTy(a, n, rm->getType());
            optRaces = s;
            vcRelease(a);
            f.r[x.dst] = old;
            break;
        }
        case Instruction::AtomicCmpXchg: {
            uint64_t a = concretize(O(0));
            vcAcquire(a);
            int s = optRaces; optRaces = 0;
            Type *ty = x.I->getOperand(1)->getType();
            Val old = loadTy(a, ty);
            bool eq = decide(icmp(CmpInst::ICMP_EQ, old, O(1), tyW(ty)));
            if (eq) storeTy(a, O(2), ty);
            optRaces = s;
            vcRelease(a);
            f.r[x.dst] = Val::G({old, Val::I(eq, 1)});
            break;
        }
        case Instruction::Fence: break;
        case Instruction::GetElementPtr: {
            Val b = O(0);
            bool conc = b.k == INT;
            for (size_t i = 1; i < x.o.size(); i++) if (O(i).k != INT) conc = false;
            if (conc) {
                uint64_t a = b.u + x.aux;
                for (size_t i = 1; i < x.o.size(); i++) {
                    Val v = O(i);
                    int64_t s = v.w < 64 && (v.u >> (v.w - 1)) ? (int64_t)(v.u | ~((1ull << v.w) - 1)) : (int64_t)v.u;
                    a += (uint64_t)s * x.scale[i - 1];
                }
                f.r[x.dst] = Val::I(a, 64);
            } else {
                Val a = intBin(Instruction::Add, b, Val::I(x.aux, 64), 64);
                for (size_t i = 1; i < x.o.size(); i++) {
                    Val v = O(i);
                    if (v.w < 64) v = v.k == INT ? Val::I((v.u >> (v.w - 1)) ? v.u | ~((1ull << v.w) - 1) : v.u, 64) : mkS(Z3_mk_sign_ext(S->c, 64 - v.w, bvOf(v)), 64);
                    a = intBin(Instruction::Add, a, intBin(Instruction::Mul, v, Val::I(x.scale[i - 1], 64), 64), 64);
                }
                f.r[x.dst] = a;
            }
            break;
        }
        case Instruction::FNeg: f.r[x.dst] = lift1(O(0), [](const Val &v) { return fneg(v); }); break;
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
            int op = x.op == Instruction::FAdd ? '+' : x.op == Instruction::FSub ? '-' : x.op == Instruction::FMul ? '*' : '/';
            unsigned w = tyW(x.I->getType()->getScalarType());
            if (w == 80) w = 64;
            f.r[x.dst] = lift2(O(0), O(1), [&](const Val &a, const Val &b) { return fparith(op, a, b, w); });
            break;
        }
        case Instruction::FRem: throw Unsupported("frem");
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
        case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
            unsigned w = tyW(x.I->getType()->getScalarType());
            f.r[x.dst] = lift2(O(0), O(1), [&](const Val &a, const Val &b) { return intBin(x.op, a, b, w); });
            break;
        }
        case Instruction::ICmp: {
            unsigned w = tyW(x.I->getOperand(0)->getType()->getScalarType());
            f.r[x.dst] = lift2(O(0), O(1), [&](const Val &a, const Val &b) { return icmp(x.pred, a, b, w); });
            break;
        }
        case Instruction::FCmp: f.r[x.dst] = lift2(O(0), O(1), [&](const Val &a, const Val &b) { return fcmp(x.pred, a, b); }); break;
        case Instruction::Select: {
            Val c = O(0);
            if (c.k == AGG) { std::vector<Val> r; Val a = O(1), b = O(2); for (size_t i = 0; i < c.agg->size(); i++) r.push_back(selectVal((*c.agg)[i], (*a.agg)[i], (*b.agg)[i], x.I->getType()->getScalarType())); f.r[x.dst] = Val::G(r); }
            else if (O(1).k == AGG || O(2).k == AGG) f.r[x.dst] = decide(c) ? O(1) : O(2);
            else { Val r = selectVal(c, O(1), O(2), x.I->getType()); th[cur].st.back().r[x.dst] = r; }
            break;
        }
        case Instruction::Freeze: f.r[x.dst] = O(0); break;
        case Instruction::ExtractValue: { Val v = O(0); for (unsigned i : cast<ExtractValueInst>(x.I)->indices()) { Val n = (*v.agg)[i]; v = n; } f.r[x.dst] = v; break; }
        case Instruction::InsertValue: {
            Val v = O(0), e = O(1);
            auto idx = cast<InsertValueInst>(x.I)->getIndices();
            std::function<Val(const Val &, unsigned)> ins = [&](const Val &b, unsigned d) -> Val {
                if (d == idx.size()) return e;
                std::vector<Val> n = *b.agg; n[idx[d]] = ins(n[idx[d]], d + 1); return Val::G(n);
            };
            f.r[x.dst] = ins(v, 0);
            break;
        }
        case Instruction::ExtractElement: f.r[x.dst] = (*O(0).agg)[concretize(O(1))]; break;
        case Instruction::InsertElement: { std::vector<Val> n = *O(0).agg; n[concretize(O(2))] = O(1); f.r[x.dst] = Val::G(n); break; }
        case Instruction::ShuffleVector: {
            auto *sv = cast<ShuffleVectorInst>(x.I);
            Val a = O(0), b = O(1); std::vector<Val> r; int n = a.agg->size();
            for (int m : sv->getShuffleMask()) r.push_back(m < 0 ? Val::U((*a.agg)[0].w) : m < n ? (*a.agg)[m] : (*b.agg)[m - n]);
            f.r[x.dst] = Val::G(r);
            break;
        }
        case Instruction::Call: case Instruction::Invoke: {
            auto *cb = cast<CallBase>(x.I);
            if (auto *ii = dyn_cast<IntrinsicInst>(cb)) {
                Args a; for (auto &o : x.o) a.push_back(get(f, o));
                Val r;
                intrinsic(ii, a, &r, x);
                if (x.dst >= 0) f.r[x.dst] = r;
                f.ip++;
                return;
            }
            if (cb->isInlineAsm()) {
                auto *ia = cast<InlineAsm>(cb->getCalledOperand());
                if (ia->getAsmString().empty() || ia->getAsmString()[0] == '#') { if (x.dst >= 0) f.r[x.dst] = x.o.empty() ? Val::U(x.w) : O(0); f.ip++; return; }
                throw Unsupported("inline asm " + ia->getAsmString());
            }
            Function *F = x.callee;
            Args a; for (size_t i = 0; i < cb->arg_size(); i++) a.push_back(get(f, x.o[i]));
            if (!F) {
                uint64_t fp = concretize(O(cb->arg_size()));
                auto it = faddr.find(fp);
                if (it == faddr.end()) throw MemErr{"call through an invalid function pointer"};
                F = it->second;
            }
            auto ic = intercepted.find(F);
            if (ic != intercepted.end()) {
                const std::string &k = ic->second;
                Val r;
                if (k == "digamma") r = polyFn("digamma", a[0], x.w);
                else if (k == "exp") r = polyFn("exp", a[0], x.w);
                else if (k == "rng32") {
                    std::string n = "rng";
                    char b[64]; snprintf(b, 64, "rng_b%d", S->fresh++);
                    Ast v = Z3_mk_const(S->c, Z3_mk_string_symbol(S->c, b), Z3_mk_bv_sort(S->c, 32));
                    addInput(n, 2, v, 0, 0, 0, 32);
                    r = mkS(Z3_mk_zero_ext(S->c, x.w - 32, v), x.w);
                } else if (k == "randint") {      // uniform_int_distribution: any value of its range
                    uint64_t pp = concretize(a[2]);
                    Type *ty = x.I->getType();
                    unsigned w = x.w;
                    Val lo = loadTy(pp, ty), hi = loadTy(pp + w / 8, ty);
                    auto sx = [&](Val v) { uint64_t u = concretize(v); return w == 32 ? (int64_t)(int32_t)u : (int64_t)u; };
                    int64_t l = sx(lo), h = sx(hi);
                    if (h < l) throw MemErr{"uniform_int_distribution with an empty range"};
                    if (h - l >= 4096) throw Unsupported("randint over a large range");
                    int v = choose((int)(h - l + 1));
                    addInput("randint", 3, nullptr, 0, 0, 0, 0, std::to_string(v));
                    r = Val::I((uint64_t)(l + v), w);
                } else if (k == "randreal") {     // generate_canonical: any value in [0, 1)
                    Atom at; at.kind = A_INPUT; at.name = "randreal"; at.lo = 0; at.hi = 1; at.sign = 1;
                    uint32_t id = S->newAtom(at);
                    addInput("randreal", 0, S->atoms[id].v, at.lo, at.hi, id, 0);
                    r = Val::P(S->PT.atom(id), x.w);
                    S->assume(S->relZero(S->PT.sub(S->PT.atom(id), S->PT.cst(mpq_class(1))), Sym::LT));
                } else if (k == "nop") r = x.dst >= 0 ? zeroOf(x.I->getType()) : Val();
                else throw Unsupported("intercept " + k);
                if (x.dst >= 0) f.r[x.dst] = r;
                if (x.op == Instruction::Invoke) branchTo(f, x.b0, f.blk); else f.ip++;
                return;
            }
            if (F->isDeclaration()) {
                Val r; bool adv = true;
                int me = cur;
                if (!externalCall(F, F->getName().str(), a, &r, x, &adv)) throw Unsupported("external function " + F->getName().str());
                if (adv) {
                    Frame &g = th[me].st.back();
                    if (x.dst >= 0) g.r[x.dst] = r;
                    if (x.op == Instruction::Invoke) branchTo(g, x.b0, g.blk); else g.ip++;
                }
                return;
            }
            pushFrame(t, F, a, x.dst);
            return;
        }
        default:
            if (isa<CastInst>(x.I)) {
                Type *ft = x.I->getOperand(0)->getType()->getScalarType(), *tt = x.I->getType()->getScalarType();
                Val r = lift1(O(0), [&](const Val &v) { return castVal(x.op, v, ft, tt); });
                th[cur].st.back().r[x.dst] = r;
                break;
            }
            throw Unsupported(std::string("opcode ") + x.I->getOpcodeName());
    }
    th[cur].st.back().ip++;
}
static void runThread0() {
    while (!(th[0].st.empty())) step();
}
static void weakCand(const std::string &msg) {
    static const int lim = 40;
    if (SH->errors > lim) return;
    auto ss = S->resample(200, {}, 1);
    Sample s0; Sample *sp = ss.empty() ? &s0 : &ss[0];
    for (auto &in : S->inputs) if (in.kind == 0) S->evAtom(in.atom, *sp);
    emitLine("{\"ev\":\"cand\",\"weak\":true,\"kind\":\"unsupported\",\"label\":\"path not encoded\",\"detail\":" + jq(msg) + ",\"where\":" + jq(where()) + ",\"model\":" + modelJson(nullptr, sp) + ",\"sched\":" + schedJson() + "}");
}
static void runPath(Function *entry, const std::vector<Function *> &ctors) {
    try {
        for (Function *c : ctors) { pushFrame(th[0], c, {}, -1); th[0].s = T_RUN; cur = 0; optExact = 0; runThread0(); th[0].s = T_RUN; }
        optExact = !optNative;
        pushFrame(th[0], entry, {}, -1);
        th[0].s = T_RUN;
        runThread0();
        // completed: vacuity witness
        SH->completed++;
        if (SH->maxWitness < 12) {
            SH->maxWitness++;
            auto ss = S->resample(200, {}, 1);
            if (!ss.empty()) emitLine("{\"ev\":\"witness\",\"model\":" + modelJson(nullptr, &ss[0]) + ",\"sched\":" + schedJson() + "}");
            else {
                S->render = [](Z3_model m) { return modelJson(m, nullptr); };
                auto q = S->check({S->T()}, true, true, true);
                if (q.r == 1) emitLine("{\"ev\":\"witness\",\"model\":" + q.txt + ",\"sched\":" + schedJson() + "}");
                else if (q.r == 0) { SH->completed--; SH->infeasible++; SH->maxWitness--; }
            }
        }
    } catch (PathEnd &) {
    } catch (MemErr &e) {
        candidate("memory", "memory safety", {}, e.msg);
    } catch (PolyTooBig &e) {
        SH->errors++;
        emitLine("{\"ev\":\"error\",\"msg\":" + jq("polynomial too big") + ",\"where\":" + jq(where()) + "}");
        weakCand("polynomial too big");
    } catch (Unsupported &e) {
        SH->errors++;
        emitLine("{\"ev\":\"error\",\"msg\":" + jq(e.what()) + ",\"where\":" + jq(where()) + "}");
        weakCand(e.what());
    }
    SH->insts += ninst;
}

int main(int argc, char **argv) {
    std::vector<std::string> mods;
    std::string entryN = "vp_main";
    std::vector<std::pair<std::string, std::string>> icept;
    bool noOpt = false;
    std::string dump;
    unsigned optRl = 0, optRlh = 0;
    for (int i = 1; i < argc; i++) {
        std::string s = argv[i];
        auto nxt = [&]() { return std::string(argv[++i]); };
        if (s == "--entry") entryN = nxt();
        else if (s == "--out") optOut = nxt();
        else if (s == "--summary") optSummary = nxt();
        else if (s == "--par") optMaxPar = atoi(nxt().c_str());
        else if (s == "--wall") optWall = atof(nxt().c_str());
        else if (s == "--wall-hard") optWallHard = atof(nxt().c_str());
        else if (s == "--deadline") optDeadline = atof(nxt().c_str());
        else if (s == "--max-depth") optMaxDepth = atoi(nxt().c_str());
        else if (s == "--max-inst") optMaxInst = atoll(nxt().c_str());
        else if (s == "--max-paths") optMaxPaths = atoll(nxt().c_str());
        else if (s == "--preempt") optPreempt = atoi(nxt().c_str());
        else if (s == "--spurious") optSpurious = atoi(nxt().c_str());
        else if (s == "--select-ite") optSelectFork = 0;
        else if (s == "--no-races") optRaces = 0;
        else if (s == "--no-opt") noOpt = true;
        else if (s == "--rlimit") optRl = atoi(nxt().c_str());
        else if (s == "--rlimit-hard") optRlh = atoi(nxt().c_str());
        else if (s == "--dump") dump = nxt();
        else if (s == "--native-fp") optNative = 1;
        else if (s == "--max-cand") optMaxCand = atoi(nxt().c_str());
        else if (s == "--intercept") { std::string v = nxt(); auto p = v.find('='); icept.emplace_back(v.substr(0, p), v.substr(p + 1)); }
        else if (s == "-v") optVerbose = 1;
        else mods.push_back(s);
    }
    tStart = nowS();
    LLVMContext ctx;
    SMDiagnostic err;
    std::unique_ptr<Module> mod;
    for (auto &m : mods) {
        auto x = parseIRFile(m, err, ctx);
        if (!x) { err.print("symex", errs()); return 3; }
        if (!mod) mod = std::move(x);
        else if (Linker::linkModules(*mod, std::move(x))) { fprintf(stderr, "link error %s\n", m.c_str()); return 3; }
    }
    Function *entry = mod->getFunction(entryN);
    if (!entry || entry->isDeclaration()) { fprintf(stderr, "no entry %s\n", entryN.c_str()); return 3; }
    // keep intercepted functions out of line, drop everything not reachable, optimise
    std::vector<std::pair<std::string, std::string>> icNames;
    std::vector<std::pair<std::string, std::regex>> rx;
    for (auto &p : icept) rx.emplace_back(p.first, std::regex(p.second));
    for (auto &F : *mod) {
        F.removeFnAttr(Attribute::OptimizeNone);
        if (F.isDeclaration()) continue;
        std::string d = demangle(F.getName().str());
        for (auto &r : rx) if (std::regex_search(d, r.second)) {
            if (r.first == "randint" && (!F.getReturnType()->isIntegerTy() || F.arg_size() != 3)) continue;
            if (r.first == "randreal" && !F.getReturnType()->isFloatingPointTy()) continue;
            F.setComdat(nullptr); F.setLinkage(GlobalValue::WeakAnyLinkage);   // no inter-procedural assumptions about the body
            F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline);
            F.addFnAttr("vp-intercept", r.first);
            F.setMemoryEffects(MemoryEffects::unknown());
        }
    }
    internalizeModule(*mod, [&](const GlobalValue &g) { if (auto *gf = dyn_cast<Function>(&g)) if (gf->hasFnAttribute("vp-intercept")) return true; return g.getName() == entryN || g.getName() == "llvm.global_ctors"; });
    if (!noOpt) {
        LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
        PipelineTuningOptions pto; pto.LoopVectorization = false; pto.SLPVectorization = false; pto.LoopUnrolling = false;
        PassBuilder PB(nullptr, pto);
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        { ModulePassManager mp; mp.addPass(GlobalDCEPass()); mp.run(*mod, MAM); }
        PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1).run(*mod, MAM);
    }
    if (!dump.empty()) { std::error_code ec; raw_fd_ostream os(dump, ec); mod->print(os, nullptr); }
    M = mod.get();
    DL = &M->getDataLayout();
    entry = M->getFunction(entryN);
    SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void *)SH, 0, sizeof(Shared));
    SH->paths = 1; SH->nextPathId = 1; SH->liveProcs = 1;
    outFd = open(optOut.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    double tPrep = nowS() - tStart;
    // explore in a child so that the root can always report
    pid_t p = fork();
    if (p == 0) {
        SH->running = 1; ownToken = true;
        S = new Sym;
        S->queryWall = optWall; S->hardWall = optWallHard;
        if (optRl) S->rlimit = optRl;
        if (optRlh) S->rlimitHard = optRlh;
        th.reserve(16); th.resize(1);
        th[0].vc[0] = 1;
        int bit = 0;
        for (auto &F : *M) {
            if (F.isDeclaration()) continue;
            std::string d = demangle(F.getName().str());
            if (bit < (1 << 16)) fnBit[&F] = bit++;
            if (F.hasFnAttribute("vp-intercept")) intercepted[&F] = F.getFnAttribute("vp-intercept").getValueAsString().str();
        }
        std::vector<Function *> ctors;
        try {
            for (auto &g : M->globals()) globalAddr(&g);
            for (auto &F : *M) globalAddr(&F);
            for (auto &g : M->globals()) if (g.hasInitializer()) {
                try { storeTy(globalAddr(&g), evalConst(g.getInitializer()), g.getValueType()); }
                catch (Unsupported &e) { if (g.getName() != "llvm.global_ctors") fprintf(stderr, "global %s: %s\n", g.getName().str().c_str(), e.what()); }
                if (g.isConstant()) findObj(globalAddr(&g))->ro = true;
            }
            if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
                std::vector<std::pair<uint64_t, Function *>> v;
                for (auto &o : ca->operands()) { auto *cs = cast<ConstantStruct>(o); if (auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.emplace_back(cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f); }
                std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
                for (auto &q : v) ctors.push_back(q.second);
            }
        } catch (Unsupported &e) { SH->errors++; emitLine("{\"ev\":\"error\",\"msg\":" + jq(e.what()) + ",\"where\":\"init\"}"); finishProcess(); }
        runPath(entry, ctors);
        finishProcess();
    }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st)) SH->crashes++;
    double wall = nowS() - tStart;
    // summary
    std::string fns;
    int bit = 0;
    for (auto &F : *M) {
        if (F.isDeclaration()) continue;
        if (bit < (1 << 16) && SH->fnSeen[bit]) { std::string d = demangle(F.getName().str()); if (d.find("ldaplusplus::") != std::string::npos || d.find("applications::") != std::string::npos) fns += (fns.empty() ? "" : ",") + jq(d.substr(0, 200)); }
        bit++;
    }
    std::ostringstream o;
    o << "{\"entry\":" << jq(entryN) << ",\"wall\":" << wall << ",\"prep\":" << tPrep;
#define C(n) o << ",\"" #n "\":" << SH->n.load();
    C(paths) C(forks) C(completed) C(infeasible) C(truncated) C(bounded) C(errors) C(crashes) C(queries) C(qsat) C(qunsat) C(qunknown) C(insts) C(assertsProved) C(assertsAlgebra) C(cands) C(unknowns) C(decisionsPoints) C(races) C(assumeEnd) C(branchUnknown)
    o << ",\"solver_s\":" << SH->solver_us.load() / 1e6;
    o << ",\"labels\":{";
    bool first = true;
    for (auto &l : SH->labels) if (l.name[0]) { o << (first ? "" : ",") << jq(l.name) << ":{\"reached\":" << l.reached << ",\"proved\":" << l.proved << ",\"algebra\":" << l.algebra << ",\"cand\":" << l.cand << ",\"unknown\":" << l.unknown << "}"; first = false; }
    o << "},\"functions\":[" << fns << "]}";
    if (optSummary.empty()) puts(o.str().c_str());
    else { FILE *f = fopen(optSummary.c_str(), "w"); fputs(o.str().c_str(), f); fclose(f); }
    return 0;
}
