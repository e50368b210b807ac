// irv: a symbolic-execution based deductive verifier for LLVM IR.
//
// It takes a bitcode module that was produced mechanically by clang from the real sources in
// /repo plus a contract harness, executes one contract entry point over ALL values of its
// symbolic inputs, and generates one verification condition for every contract clause
// (vc_assert), memory access, division and escaping exception on every path.  Verification
// conditions are discharged by z3 (second opinion: cvc5/z3-new), or, in the exact-arithmetic
// mode, by canonical forms of polynomials over Q.
#include "poly.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <z3++.h>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <set>
#include <deque>
#include <list>
#include <cstring>
#include <chrono>
#include <cfenv>
#include <cmath>
#include <fstream>
#include <sstream>
#include <iostream>
#include <functional>
#include <random>
#include <unistd.h>

using namespace llvm;
using u64 = uint64_t;
using i64 = int64_t;

static z3::context* ZC;
#define Z (*ZC)

struct Undecided { std::string why; };
struct Restart {};            // instruction must be re-executed (after a fork / decision)
struct PathEnd { std::string why; };

[[noreturn]] static void undecided(const std::string& w) { throw Undecided{w}; }

// ------------------------------------------------------------------------------------------
// Values
enum class K : uint8_t { C, Big, BV, FP, R, Agg };
static bool gFPSeen = false;   // a floating-point term exists: queries need the FP theory
struct Val;
struct Heavy {
    int rc = 0;
    APInt big;
    z3::expr* e = nullptr;
    PolyP p;
    std::vector<Val>* agg = nullptr;
    ~Heavy();
};
struct Val {
    K k = K::C;
    uint32_t w = 0;
    union { u64 c; Heavy* h; };
    Val() : c(0) {}
    Val(u64 v, unsigned bits) : k(K::C), w(bits), c(bits >= 64 ? v : v & ((1ull << bits) - 1)) {}
    Val(const Val& o) : k(o.k), w(o.w), c(o.c) { if (k != K::C) ++h->rc; }
    Val(Val&& o) noexcept : k(o.k), w(o.w), c(o.c) { o.k = K::C; o.c = 0; }
    Val& operator=(const Val& o) { if (this != &o) { if (o.k != K::C) ++o.h->rc; drop(); k = o.k; w = o.w; c = o.c; } return *this; }
    Val& operator=(Val&& o) noexcept { if (this != &o) { drop(); k = o.k; w = o.w; c = o.c; o.k = K::C; o.c = 0; } return *this; }
    ~Val() { drop(); }
    void drop() { if (k != K::C && --h->rc == 0) delete h; }
    bool conc() const { return k == K::C || k == K::Big; }
    static Val mk(K k, unsigned w) { Val v; v.k = k; v.w = w; v.h = new Heavy; v.h->rc = 1; return v; }
    static Val big(const APInt& a) {
        if (a.getBitWidth() <= 64) return Val(a.getZExtValue(), a.getBitWidth());
        Val v = mk(K::Big, a.getBitWidth()); v.h->big = a; return v;
    }
    static Val bv(const z3::expr& e, unsigned w);
    static Val fp(const z3::expr& e, unsigned w) { gFPSeen = true; Val v = mk(K::FP, w); v.h->e = new z3::expr(e); return v; }
    static Val real(PolyP p, unsigned w = 64);
    static Val aggr(std::vector<Val> x) { Val v = mk(K::Agg, 0); v.h->agg = new std::vector<Val>(std::move(x)); return v; }
    APInt ap() const { return k == K::C ? APInt(w, c) : h->big; }
    const z3::expr& e() const { return *h->e; }
    const PolyP& p() const { return h->p; }
    std::vector<Val>& agg() const { return *h->agg; }
};
Heavy::~Heavy() { delete e; delete agg; }

static z3::expr simp(const z3::expr& e) { return e.simplify(); }

static APInt numeralToAP(const z3::expr& e, unsigned w) {
    std::string s = Z3_get_numeral_string(Z, e);
    if (s.empty()) undecided("numeral");
    bool neg = s[0] == '-';
    APInt a(w + 8, neg ? s.substr(1) : s, 10);
    if (neg) a = -a;
    return a.trunc(w);
}
Val Val::bv(const z3::expr& e0, unsigned w) {
    z3::expr e = simp(e0);
    if (w == 1 && e.is_bool()) {
        if (e.is_true()) return Val(1, 1);
        if (e.is_false()) return Val(0, 1);
    } else if (e.is_numeral()) return big(numeralToAP(e, w));
    Val v = mk(K::BV, w); v.h->e = new z3::expr(e); return v;
}
static std::vector<z3::expr> realVars;          // poly var -> z3 Real const
static std::vector<std::string> realVarNames;
Val Val::real(PolyP p, unsigned w) {
    if (p->isConst()) {
        mpq_class q = p->constant();
        double d = q.get_d();
        if (mpq_class(d) == q && w == 64) { u64 b; memcpy(&b, &d, 8); return Val(b, 64); }
    }
    Val v = mk(K::R, w); v.h->p = std::move(p); return v;
}

// ------------------------------------------------------------------------------------------
// Config / stats
static bool gReal = false;
static bool gGeneric = true;      // real mode: nonconstant polynomials are taken to be non-zero at ==0 tests
static double gBudget = 600;
static unsigned gTimeoutMs = 20000;
static u64 gMaxPaths = 200000, gMaxSteps = 400000000ull, gMaxStepsPath = 200000000ull;
static std::string gEntry;
static unsigned gShard = 0, gShards = 1;
static unsigned gSeed = 1;
static unsigned gMaxFail = 3;
static bool gTrace = false;
static auto gT0 = std::chrono::steady_clock::now();
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - gT0).count(); }

struct Failure { std::string oblig, kind; std::vector<std::pair<std::string, std::string>> inputs; std::string where; bool model; };
struct Oblig { u64 checked = 0, trivial = 0, smt = 0, poly = 0, failed = 0, unknown = 0; };
static std::map<std::string, Oblig> gOb;
static std::map<std::string, u64> gCover;
static std::vector<Failure> gFail;
static std::map<std::string, u64> gUndecided;
static std::map<std::string, u64> gFuncs;
static std::set<std::string> gAssume;
static u64 gQueries = 0, gPaths = 0, gPathsDone = 0, gSteps = 0, gInfeasible = 0, gFallback = 0, gMemChecks = 0;
static double gSolverT = 0;
static u64 gInternal = 0;

// ------------------------------------------------------------------------------------------
// Memory
struct Obj {
    int rc = 0;
    u64 base = 0, size = 0;
    bool heap = false, ro = false, opaque = false;
    std::string name;
    std::vector<uint8_t> d;
    std::map<u64, Val> s;   // symbolic / non-byte cells by offset
};
struct ObjRef {
    Obj* o = nullptr;
    ObjRef() {}
    explicit ObjRef(Obj* p) : o(p) { if (o) ++o->rc; }
    ObjRef(const ObjRef& r) : o(r.o) { if (o) ++o->rc; }
    ObjRef(ObjRef&& r) noexcept : o(r.o) { r.o = nullptr; }
    ObjRef& operator=(ObjRef r) noexcept { std::swap(o, r.o); return *this; }
    ~ObjRef() { if (o && --o->rc == 0) delete o; }
    Obj* w() { if (o->rc > 1) { Obj* n = new Obj(*o); n->rc = 0; *this = ObjRef(n); } return o; }
    Obj* operator->() const { return o; }
};
struct Region {
    std::vector<ObjRef> v;   // sorted by base; freed entries are null with base kept in b
    std::vector<u64> b;
    size_t dead = 0;
    int find(u64 a) const {
        size_t i = std::upper_bound(b.begin(), b.end(), a) - b.begin();
        if (i == 0) return -1;
        return int(i - 1);
    }
    void add(ObjRef o) { b.push_back(o->base); v.push_back(std::move(o)); }
    void kill(int i) {
        v[i] = ObjRef(); ++dead;
        if (dead > 64 && dead * 2 > v.size()) {
            size_t k = 0;
            for (size_t j = 0; j < v.size(); ++j) if (v[j].o) { if (k != j) { v[k] = std::move(v[j]); b[k] = b[j]; } ++k; }
            v.resize(k); b.resize(k); dead = 0;
        }
    }
};
static const u64 GBASE = 0x10000000ull, SBASE = 0x7f0000000000ull, HBASE = 0x200000000ull, FBASE = 0x1000000ull;

// ------------------------------------------------------------------------------------------
// Compiled functions
struct Edge { int target = -1; std::vector<std::pair<int, int>> moves; };
struct CInst {
    unsigned op;
    Instruction* I;
    int dst = -1;
    std::vector<int> ops;
    std::vector<Edge> edges;
    unsigned w = 0, w2 = 0;         // result width / source width
    // gep
    i64 off = 0; std::vector<std::pair<int, u64>> idx;
    Function* callee = nullptr; int builtin = -1;
};
struct CFunc {
    Function* F; std::string name; int nregs = 0;
    std::vector<CInst> code;
    std::vector<Val> consts;
    std::vector<int> bbStart;
};
struct Frame {
    CFunc* cf; int pc = 0;
    std::vector<Val> regs;
    size_t stackMark = 0; u64 stackTop = 0;
    int callDst = -1;              // dst register in caller
    bool isEntry = false;
    std::vector<u64> caught;
};
struct InputRec { std::string name; z3::expr e; int kind; unsigned bits; u64 conc; };  // kind 0 int,1 fp,2 real,3 concrete choice

struct State {
    std::vector<Frame> fr;
    Region glob, heap, stack;
    u64 hTop = HBASE, sTop = SBASE;
    std::vector<z3::expr> pc;
    std::map<unsigned, bool> known;
    std::map<unsigned, u64> conc;
    std::vector<z3::expr> keep;
    std::shared_ptr<z3::model> model;
    std::vector<InputRec> inputs;
    std::map<std::string, unsigned> nameCount;
    std::vector<u64> caught;
    std::map<u64, std::pair<u64, int>> exc;   // exception object -> typeinfo, (rethrow bookkeeping)
    u64 lastExc = 0;
    u64 steps = 0;
    std::set<std::string> contracts;          // functions replaced by their contract
    bool realPc = false;
};

static std::unique_ptr<Module> M;
static LLVMContext LC;
static const DataLayout* DL;
static std::unordered_map<const GlobalValue*, u64> gaddr;
static std::unordered_map<u64, Function*> faddr;
static std::unordered_map<Function*, CFunc*> cfuncs;
static std::deque<State> worklist;
static State* cur;
static std::string whereStr(struct State& st);
static std::map<u64, GlobalVariable*> addrToGV;

// ------------------------------------------------------------------------------------------
// z3 conversions
static unsigned ebits(unsigned w) { return w == 64 ? 11 : 8; }
static unsigned sbits(unsigned w) { return w == 64 ? 53 : 24; }
static z3::sort fpSort(unsigned w) { return w == 64 ? Z.fpa_sort(11, 53) : Z.fpa_sort(8, 24); }
static z3::expr rne() { return z3::expr(Z, Z3_mk_fpa_rne(Z)); }
static z3::expr rtz() { return z3::expr(Z, Z3_mk_fpa_rtz(Z)); }
static z3::expr rtn() { return z3::expr(Z, Z3_mk_fpa_rtn(Z)); }
static z3::expr rtp() { return z3::expr(Z, Z3_mk_fpa_rtp(Z)); }

static z3::expr bvConst(const APInt& a) {
    SmallString<64> s; a.toStringUnsigned(s, 10);
    return Z.bv_val(s.c_str(), a.getBitWidth());
}
static double bitsToD(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static u64 dToBits(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static float bitsToF(uint32_t b) { float d; memcpy(&d, &b, 4); return d; }
static uint32_t fToBits(float d) { uint32_t b; memcpy(&b, &d, 4); return b; }

static bool fpBits(const z3::expr& e, z3::expr& out) {   // the bits a floating point term was made from, if it was
    if (e.is_app() && e.decl().decl_kind() == Z3_OP_FPA_TO_FP && e.num_args() == 1 && e.arg(0).is_bv()) { out = e.arg(0); return true; }
    return false;
}
// signed 64-bit order keys of symbolic doubles: x < y exactly when key(x) < key(y), -0 and 0 share a key, NaN lies outside [-inf, inf]
static std::unordered_map<unsigned, std::pair<z3::expr, z3::expr>> gKeys;   // by term id (the term is kept alive)
static std::unordered_map<unsigned, std::pair<z3::expr, z3::expr>> gBitKeys;   // by id of the simplified bits
static const uint64_t KEY_INF = 0x7ff0000000000000ull;
static bool fpKey(const Val& v, z3::expr& out) {
    if (v.w != 64) return false;
    if (v.k == K::C) { uint64_t m = v.c & 0x7fffffffffffffffull; out = Z.bv_val((uint64_t)(v.c >> 63 ? 0 - m : m), 64); return true; }
    if (v.k == K::BV) {
        auto jt = gBitKeys.find(v.e().simplify().id());
        if (jt != gBitKeys.end()) { out = jt->second.second; return true; }
        return false;
    }
    if (v.k != K::FP) return false;
    z3::expr e = v.e();
    auto it = gKeys.find(e.id());
    if (it != gKeys.end()) { out = it->second.second; return true; }
    z3::expr bits(Z);
    if (fpBits(e, bits)) {
        auto jt = gBitKeys.find(bits.simplify().id());
        if (jt != gBitKeys.end()) { out = jt->second.second; return true; }
    }
    return false;
}
static std::unordered_map<unsigned, z3::expr> gOrdKeys;   // the variables that are order keys
static Val fpFromKey(const z3::expr& key, const z3::expr& negz) {
    z3::expr zero = Z.bv_val((uint64_t)0, 64), sign = Z.bv_val((uint64_t)1 << 63, 64);
    z3::expr bits = z3::ite(key < zero || (key == zero && negz), sign | -key, key).simplify();
    gBitKeys.insert({bits.id(), {bits, key}});
    z3::expr e(Z, Z3_mk_fpa_to_fp_bv(Z, bits, fpSort(64)));
    gKeys.insert({e.id(), {e, key}});
    gOrdKeys.insert({key.id(), key});
    return Val::fp(e, 64);
}
static Val toIntKind(const Val& v) {   // view any value as bits
    z3::expr bits(Z);
    if (v.k == K::FP && fpBits(v.e(), bits)) return Val::bv(bits, v.w);
    if (v.k == K::FP) return Val::bv(z3::expr(Z, Z3_mk_fpa_to_ieee_bv(Z, v.e())), v.w);
    if (v.k == K::R) {
        if (v.p()->isConst()) { double d = v.p()->constant().get_d(); return v.w == 64 ? Val(dToBits(d), 64) : Val(fToBits((float)d), 32); }
        undecided("bit-level operation on a symbolic real");
    }
    return v;
}
static z3::expr toBV(const Val& v0) {
    Val v = toIntKind(v0);
    if (v.k == K::Agg) undecided("aggregate as bv");
    if (v.conc()) { if (v.w == 1) return Z.bool_val(v.c != 0); return bvConst(v.ap()); }
    return v.e();
}
static z3::expr asBit(const z3::expr& b) { return b.is_bool() ? z3::ite(b, Z.bv_val(1, 1), Z.bv_val(0, 1)) : b; }
static z3::expr toBool(const Val& v) {
    z3::expr e = toBV(v);
    if (e.is_bool()) return e;
    return e == Z.bv_val(1, 1);
}
static z3::expr toFP(const Val& v) {
    if (v.k == K::FP) return v.e();
    if (v.k == K::R) undecided("real in ieee context");
    z3::expr b = toBV(v);
    if (b.is_app() && b.decl().decl_kind() == Z3_OP_FPA_TO_IEEE_BV) return b.arg(0);   // the bits of a term: the term
    return z3::expr(Z, Z3_mk_fpa_to_fp_bv(Z, b, fpSort(v.w)));
}
static PolyP toPoly(const Val& v) {
    if (v.k == K::R) return v.p();
    if (v.k == K::C) {
        double d = v.w == 64 ? bitsToD(v.c) : bitsToF((uint32_t)v.c);
        if (!std::isfinite(d)) undecided("non-finite constant in exact arithmetic mode");
        return polyConst(ratOfDouble(d));
    }
    undecided("symbolic bits used as exact real");
}
static z3::expr polyToZ3(const PolyP& p) {
    z3::expr_vector terms(Z);
    for (auto& t : p->t) {
        z3::expr e = Z.real_val(t.c.get_str().c_str());
        for (auto x : t.m.v) {
            int ex = int(x & 255) - 128;
            z3::expr var = realVars[x >> 8];
            if (ex < 0) { for (int i = 0; i < -ex; ++i) e = e / var; }
            else for (int i = 0; i < ex; ++i) e = e * var;
        }
        terms.push_back(e);
    }
    if (terms.empty()) return Z.real_val(0);
    return z3::sum(terms);
}

// ------------------------------------------------------------------------------------------
// Solver
static bool gLogic = !getenv("VC_NOLOGIC");
static double gSlow = getenv("VC_SLOW") ? atof(getenv("VC_SLOW")) : 0;
enum class R3 { sat, unsat, unknown };
static R3 externalSolver(const std::vector<z3::expr>& cs) {
    ++gFallback;
    z3::solver s(Z);
    for (auto& c : cs) s.add(c);
    std::string f = "/tmp/irv_q_" + std::to_string(getpid()) + ".smt2";
    { std::ofstream o(f); o << "(set-logic ALL)\n" << s.to_smt2(); }
    R3 r = R3::unknown;
    const char* cmds[] = {"cvc5 --tlimit=25000 ", "z3-new -T:25 "};
    for (auto c : cmds) {
        FILE* p = popen((std::string(c) + f + " 2>/dev/null").c_str(), "r");
        if (!p) continue;
        char buf[256] = {0}; (void)!fgets(buf, sizeof buf, p); pclose(p);
        if (!strncmp(buf, "unsat", 5)) { r = R3::unsat; break; }
        if (!strncmp(buf, "sat", 3)) { r = R3::sat; break; }
    }
    unlink(f.c_str());
    return r;
}
// does a constraint mention floating point terms (memoised by term, terms kept alive)
static std::unordered_map<unsigned, std::pair<z3::expr, bool>> gHasFP;
static bool hasFP(const z3::expr& e) {
    if (e.is_fpa()) return true;
    if (!e.is_app() || e.num_args() == 0) return false;
    auto it = gHasFP.find(e.id());
    if (it != gHasFP.end()) return it->second.second;
    bool r = false;
    for (unsigned i = 0; !r && i < e.num_args(); ++i) r = hasFP(e.arg(i));
    gHasFP.insert({e.id(), {e, r}});
    return r;
}
// comparisons of order keys as integer constraints (bit-blasting chains of 64-bit comparisons is slow). Only terms that read
// the same over the integers are translated: variables, numerals, negations of variables (keys never take the least value),
// ite, signed comparisons, equalities and boolean structure.
static std::unordered_map<unsigned, std::pair<z3::expr, std::shared_ptr<z3::expr>>> gOrd;   // memo; null: not translatable
static std::vector<std::pair<z3::expr, z3::expr>> gOrdVars;
static std::shared_ptr<z3::expr> ordTerm(const z3::expr& e) {
    auto it = gOrd.find(e.id());
    if (it != gOrd.end()) return it->second.second;
    std::shared_ptr<z3::expr> r;
    auto put = [&](const z3::expr& x) { r = std::make_shared<z3::expr>(x); };
    if (e.is_app()) {
        auto k = e.decl().decl_kind();
        unsigned n = e.num_args();
        auto all = [&](std::vector<z3::expr>& out) { for (unsigned i = 0; i < n; ++i) { auto a = ordTerm(e.arg(i)); if (!a) return false; out.push_back(*a); } return true; };
        std::vector<z3::expr> a;
        if (e.is_bool()) {
            if (n == 0) put(e);
            else if (k == Z3_OP_NOT && all(a)) put(!a[0]);
            else if (k == Z3_OP_AND && all(a)) { z3::expr_vector v(Z); for (auto& x : a) v.push_back(x); put(z3::mk_and(v)); }
            else if (k == Z3_OP_OR && all(a)) { z3::expr_vector v(Z); for (auto& x : a) v.push_back(x); put(z3::mk_or(v)); }
            else if (k == Z3_OP_EQ && (e.arg(0).is_bool() || (e.arg(0).is_bv() && e.arg(0).get_sort().bv_size() == 64)) && all(a)) put(a[0] == a[1]);
            else if (k == Z3_OP_ITE && all(a)) put(z3::ite(a[0], a[1], a[2]));
            else if (k == Z3_OP_DISTINCT && n == 2 && (e.arg(0).is_bool() || (e.arg(0).is_bv() && e.arg(0).get_sort().bv_size() == 64)) && all(a)) put(a[0] != a[1]);
            else if ((k == Z3_OP_SLEQ || k == Z3_OP_SLT || k == Z3_OP_SGEQ || k == Z3_OP_SGT) && e.arg(0).get_sort().bv_size() == 64 && all(a)) put(k == Z3_OP_SLEQ ? a[0] <= a[1] : k == Z3_OP_SLT ? a[0] < a[1] : k == Z3_OP_SGEQ ? a[0] >= a[1] : a[0] > a[1]);
        } else if (e.is_bv() && e.get_sort().bv_size() == 64) {
            uint64_t c;
            if (e.is_numeral() && e.is_numeral_u64(c)) put(Z.int_val((int64_t)c));
            else if (n == 0 && k == Z3_OP_UNINTERPRETED && gOrdKeys.count(e.id())) { z3::expr v = Z.int_const(("ord!" + std::to_string(e.id())).c_str()); gOrdVars.push_back({e, v}); put(v); }
            else if (k == Z3_OP_BNEG && e.arg(0).num_args() == 0 && all(a)) put(-a[0]);
            else if (k == Z3_OP_BMUL && n == 2 && e.arg(0).is_numeral_u64(c) && c == ~0ull && e.arg(1).num_args() == 0) { auto b = ordTerm(e.arg(1)); if (b) put(-*b); }
            else if (k == Z3_OP_ITE && all(a)) put(z3::ite(a[0], a[1], a[2]));
        }
    }
    gOrd.insert({e.id(), {e, r}});
    return r;
}
static R3 check(const std::vector<z3::expr>& cs, const z3::expr& extra, std::shared_ptr<z3::model>* m, bool external = false) {
    ++gQueries;
    auto t = now();
    R3 r = R3::unknown;
    try {
        auto run = [&](z3::solver s) {
            z3::params p(Z);
            p.set("timeout", gTimeoutMs);
            s.set(p);
            for (auto& c : cs) s.add(c);
            s.add(extra);
            auto res = s.check();
            if (res == z3::sat && m) *m = std::make_shared<z3::model>(s.get_model());
            return res;
        };
        z3::check_result res = z3::unknown;
        if (!gOrdKeys.empty()) {   // integer view of the order constraints: unsat is decisive, sat is when everything was translated
            z3::solver s(Z, "QF_LIA");
            bool whole = true; unsigned n = 0;
            auto add = [&](const z3::expr& c) { auto o = ordTerm(c); if (o) { s.add(*o); ++n; } else { whole = false; if (gSlow > 0) { std::ostringstream os; os << c; fprintf(stderr, "[ord] %s\n", os.str().substr(0, 1500).c_str()); } } };
            for (auto& c : cs) add(c);
            add(extra);
            if (n) {
                for (auto& v : gOrdVars) s.add(v.second > Z.int_val(INT64_MIN) && v.second <= Z.int_val(INT64_MAX));
                auto r0 = s.check();
                if (r0 == z3::unsat) res = r0;
                else if (r0 == z3::sat && whole) {
                    if (!m) res = r0;
                    else {   // a model over the bits: fix the keys
                        z3::model im = s.get_model();
                        z3::solver t(Z, "QF_BV");
                        for (auto& c : cs) t.add(c);
                        t.add(extra);
                        for (auto& v : gOrdVars) { int64_t x; z3::expr iv = im.eval(v.second, true); if (iv.is_numeral_i64(x)) t.add(v.first == Z.bv_val((int64_t)x, 64)); }
                        if (t.check() == z3::sat) { *m = std::make_shared<z3::model>(t.get_model()); res = z3::sat; }
                    }
                }
            }
        }
        if (res == z3::unknown) {
        bool fp = gFPSeen && hasFP(extra);
        if (gFPSeen && !gReal) for (auto& c : cs) if (!fp && hasFP(c)) fp = true;
        if (!gReal && gLogic) { try { res = run(z3::solver(Z, fp ? "QF_FPBV" : "QF_BV")); } catch (z3::exception&) { res = z3::unknown; } }
        if (res == z3::unknown && (gReal || !gLogic || now() - t < 0.5 * gTimeoutMs / 1000.0)) res = run(z3::solver(Z));
        }
        if (gSlow > 0 && now() - t > gSlow) { fprintf(stderr, "[slow] %.2fs %s %s\n", now() - t, res == z3::sat ? "sat" : res == z3::unsat ? "unsat" : "unknown", cur ? whereStr(*cur).substr(0, 150).c_str() : ""); }
        if (gSlow > 0 && now() - t > gSlow && getenv("VC_DUMP")) { z3::solver d(Z); for (auto& c : cs) d.add(c); d.add(extra); static int nd; std::ofstream(std::string(getenv("VC_DUMP")) + std::to_string(nd++) + ".smt2") << d.to_smt2(); }
        if (res == z3::sat) r = R3::sat;
        else if (res == z3::unsat) r = R3::unsat;
        else if (external) {
            auto all = cs; all.push_back(extra);
            r = externalSolver(all);
        }
    } catch (z3::exception& e) { r = R3::unknown; }
    gSolverT += now() - t;
    return r;
}
static int evalBool(State& st, const z3::expr& e) {  // under cached model; -1 unknown
    if (!st.model) return -1;
    z3::expr r = st.model->eval(e, true);
    if (r.is_true()) return 1;
    if (r.is_false()) return 0;
    r = r.simplify();
    return r.is_true() ? 1 : r.is_false() ? 0 : -1;
}
static void ensureModel(State& st) {
    if (st.model) return;
    std::shared_ptr<z3::model> m;
    R3 r = check(st.pc, Z.bool_val(true), &m);
    if (r == R3::sat) st.model = m;
    else if (r == R3::unsat) throw PathEnd{"infeasible"};
}
static bool isRealExpr(const z3::expr&) { return gReal; }

// decide a boolean; may fork (pushes the sibling state to the worklist)
static bool decide(const z3::expr& e0) {
    State& st = *cur;
    z3::expr e = simp(e0);
    if (e.is_true()) return true;
    if (e.is_false()) return false;
    unsigned id = e.id();
    auto it = st.known.find(id);
    if (it != st.known.end()) return it->second;
    ensureModel(st);
    int v = evalBool(st, e);
    std::shared_ptr<z3::model> mt, mf;
    R3 rt, rf;
    if (v == 1) { rt = R3::sat; mt = st.model; } else rt = check(st.pc, e, &mt);
    if (v == 0) { rf = R3::sat; mf = st.model; } else rf = check(st.pc, !e, &mf);
    if (rt == R3::unknown || rf == R3::unknown) {
        // an undecided branch is explored on both sides (sound: over-approximates feasible paths)
        if (rt == R3::unsat) rf = R3::sat;
        if (rf == R3::unsat) rt = R3::sat;
    }
    bool ct = rt != R3::unsat, cf = rf != R3::unsat;
    if (!ct && !cf) throw PathEnd{"infeasible"};
    if (ct && cf) {
        State sib = st;
        sib.pc.push_back(!e); sib.known[id] = false; sib.model = mf;
        worklist.push_back(std::move(sib));
        st.pc.push_back(e); st.known[id] = true; st.model = mt;
        return true;
    }
    if (ct) { st.known[id] = true; st.model = mt ? mt : st.model; st.pc.push_back(e); return true; }
    st.known[id] = false; st.model = mf ? mf : st.model; st.pc.push_back(!e); return false;
}
static bool decide(const Val& v) {
    if (v.k == K::C) return v.c & 1;
    return decide(toBool(v));
}
// the value of a condition when the path condition forces it, -1 otherwise (never forks)
static int forced(const z3::expr& e0) {
    State& st = *cur;
    z3::expr e = simp(e0);
    if (e.is_true()) return 1;
    if (e.is_false()) return 0;
    unsigned id = e.id();
    auto it = st.known.find(id);
    if (it != st.known.end()) return it->second;
    ensureModel(st);
    int v = evalBool(st, e);
    if (v < 0) return -1;
    if (check(st.pc, v ? !e : e, nullptr) != R3::unsat) return -1;
    st.known[id] = v; st.pc.push_back(v ? e : !e);
    return v;
}
static APInt concretizeAP(const Val& v0) {
    Val v = toIntKind(v0);
    if (v.conc()) return v.ap();
    if (v.k == K::Agg) undecided("concretize aggregate");
    if (v.w == 1) return APInt(1, decide(v) ? 1 : 0);
    State& st = *cur;
    z3::expr e = v.e();
    unsigned id = e.id();
    auto it = st.conc.find(id);
    if (it != st.conc.end()) return APInt(v.w, it->second);
    for (int guard = 0; guard < 100000; ++guard) {
        ensureModel(st);
        if (!st.model) undecided("no model while concretising");
        z3::expr val = st.model->eval(e, true);
        if (!val.is_numeral()) undecided("cannot concretise");
        APInt a = numeralToAP(val, v.w);
        if (decide(e == bvConst(a))) { if (v.w <= 64) { st.conc[id] = a.getZExtValue(); st.keep.push_back(e); } return a; }
    }
    undecided("concretise");
}
static u64 concretize(const Val& v) { if (v.k == K::C) return v.c; return concretizeAP(v).getZExtValue(); }
static mpq_class concretizeReal(const PolyP& p) {
    if (p->isConst()) return p->constant();
    State& st = *cur;
    z3::expr e = simp(polyToZ3(p));
    for (int guard = 0; guard < 100000; ++guard) {
        ensureModel(st);
        if (!st.model) undecided("no model while concretising real");
        z3::expr val = st.model->eval(e, true);
        std::string s;
        if (!val.is_numeral(s)) undecided("cannot concretise real");
        mpq_class q(s);
        if (decide(e == val)) return q;
    }
    undecided("concretise real");
}

// ------------------------------------------------------------------------------------------
// Failure recording
static std::string whereStr(State& st) {
    std::string s;
    for (auto it = st.fr.rbegin(); it != st.fr.rend(); ++it) { s += demangle(it->cf->name); s += " < "; if (s.size() > 600) break; }
    return s;
}
static std::string modelValue(z3::model& m, const InputRec& in) {
    if (in.kind == 3) return std::to_string(in.conc);
    z3::expr v = m.eval(in.e, true);
    if (in.kind == 0) {
        if (in.e.is_bool()) return v.is_true() ? "1" : "0";
        return Z3_get_numeral_string(Z, v);
    }
    if (in.kind == 1) {
        z3::expr b = v;
        if (!v.is_bv()) b = simp(z3::expr(Z, Z3_mk_fpa_to_ieee_bv(Z, v)));
        std::string s = b.is_numeral() ? std::string(Z3_get_numeral_string(Z, b)) : "9221120237041090560";
        return "bits:" + s;
    }
    std::string s;
    if (v.is_numeral(s)) { mpq_class q(s); char buf[64]; snprintf(buf, 64, "%.17g", q.get_d()); return buf; }
    if (v.is_algebraic()) { std::string t = v.get_decimal_string(20); if (!t.empty() && t.back() == '?') t.pop_back(); return t; }
    return "0";
}
static std::mt19937_64 rng;
static void recordFailure(State& st, const std::string& ob, const std::string& kind, std::shared_ptr<z3::model> m, const z3::expr* neg = nullptr) {
    unsigned n = 0;
    for (auto& f : gFail) if (f.oblig == ob) ++n;
    if (n >= gMaxFail) return;
    if (gReal && m) {   // pick a witness in general position: small random values for the real inputs
        std::vector<z3::expr> cs = st.pc;
        if (neg) cs.push_back(*neg);
        bool constrained = !cs.empty();
        std::map<std::string, std::string> chosen;
        unsigned tries = 0;
        double tw = now();
        for (auto& in : st.inputs) if (in.kind == 2) {
            int num = (int)(rng() % 13) - 6; if (num == 0) num = 7;
            int den = 1 << (rng() % 3);
            std::string q = std::to_string(num) + "/" + std::to_string(den);
            if (!constrained) { char buf[64]; snprintf(buf, 64, "%.17g", (double)num / den); chosen[in.name] = buf; continue; }
            if (++tries > 60 || now() - tw > 20) break;
            z3::expr eqn = in.e == Z.real_val(q.c_str());
            std::shared_ptr<z3::model> m2;
            if (check(cs, eqn, &m2) == R3::sat) { cs.push_back(eqn); m = m2; }
        }
        Failure f; f.oblig = ob; f.kind = kind; f.where = whereStr(st); f.model = true;
        for (auto& in : st.inputs) f.inputs.push_back({in.name, chosen.count(in.name) ? chosen[in.name] : modelValue(*m, in)});
        gFail.push_back(f);
        return;
    }
    Failure f; f.oblig = ob; f.kind = kind; f.where = whereStr(st); f.model = (bool)m;
    if (m) for (auto& in : st.inputs) f.inputs.push_back({in.name, modelValue(*m, in)});
    gFail.push_back(f);
}
// assert with full VC
static void assertVC(const Val& cond, const std::string& ob, const std::string& kind = "contract") {
    State& st = *cur;
    Oblig& o = gOb[ob];
    if (cond.k == K::C) {
        if (cond.c & 1) { ++o.checked; ++o.trivial; return; }
        ensureModel(st);
        ++o.checked; ++o.failed;
        recordFailure(st, ob, kind, st.model);
        if (kind == "contract") return;
        throw PathEnd{"assertion failed"};
    }
    z3::expr e = simp(toBool(cond));
    auto it = st.known.find(e.id());
    if (it != st.known.end() && it->second) { ++o.checked; ++o.trivial; return; }
    ensureModel(st);
    std::shared_ptr<z3::model> m;
    R3 r;
    if (evalBool(st, e) == 0) { r = R3::sat; m = st.model; }
    else r = check(st.pc, !e, &m, true);
    ++o.checked;
    if (r == R3::unsat) { ++o.smt; st.pc.push_back(e); st.known[e.id()] = true; return; }
    if (r == R3::unknown) { ++o.unknown; ++gUndecided["solver gave no answer on: " + ob]; st.pc.push_back(e); st.known[e.id()] = true; st.model.reset(); return; }
    ++o.failed;
    { z3::expr ne = !e; recordFailure(st, ob, kind, m, &ne); }
    if (kind == "contract") return;
    // a fault ends the path; continue with the inputs that avoid it
    std::shared_ptr<z3::model> m2;
    R3 r2 = check(st.pc, e, &m2);
    if (r2 == R3::unsat) throw PathEnd{"assertion failed"};
    st.pc.push_back(e); st.known[e.id()] = true; st.model = m2;
}
[[noreturn]] static void fault(const std::string& ob, const std::string& kind) {
    assertVC(Val(0, 1), ob, kind);
    throw PathEnd{"fault"};
}

// ------------------------------------------------------------------------------------------
// Memory access
static ObjRef* findObj(State& st, u64 a) {
    Region* r = a >= SBASE ? &st.stack : a >= HBASE ? &st.heap : &st.glob;
    int i = r->find(a);
    if (i < 0 || !r->v[i].o) return nullptr;
    Obj* o = r->v[i].o;
    if (a >= o->base && a <= o->base + o->size) return &r->v[i];
    return nullptr;
}
static ObjRef* access(u64 a, u64 n, bool write) {
    State& st = *cur;
    ObjRef* r = findObj(st, a);
    ++gMemChecks;
    if (!r || a + n > (*r)->base + (*r)->size) {
        char b[64]; snprintf(b, 64, "0x%llx size %llu", (unsigned long long)a, (unsigned long long)n);
        fault("memory-safety: valid access", std::string(a < 4096 ? "null dereference " : "invalid memory access ") + b);
    }
    if ((*r)->opaque) undecided("access to opaque external object " + (*r)->name);
    if (write && (*r)->ro) fault("memory-safety: valid access", "write to constant");
    return r;
}
static Val byteAt(const Obj* o, u64 off) {
    auto it = o->s.upper_bound(off);
    if (it != o->s.begin()) {
        --it;
        u64 n = std::max<u64>(1, (it->second.w + 7) / 8);
        if (off < it->first + n) {
            Val v = toIntKind(it->second);
            u64 k = off - it->first;
            if (v.conc()) return Val::big(v.ap().zext(std::max(v.w, unsigned(8 * n))).extractBits(8, k * 8));
            z3::expr e = asBit(v.e());
            if (v.w < 8 * n) e = z3::zext(e, 8 * n - v.w);
            return Val::bv(e.extract(k * 8 + 7, k * 8), 8);
        }
    }
    return Val(o->d[off], 8);
}
static void splitCells(Obj* o, u64 off, u64 n) {   // remove cells overlapping [off,off+n), keeping outside bytes
    if (o->s.empty()) return;
    auto it = o->s.lower_bound(off > 64 ? off - 64 : 0);
    std::vector<std::pair<u64, Val>> add;
    while (it != o->s.end() && it->first < off + n) {
        u64 len = std::max<u64>(1, (it->second.w + 7) / 8);
        if (it->first + len <= off) { ++it; continue; }
        u64 a = it->first;
        bool part = a < off || a + len > off + n;
        if (part) for (u64 k = 0; k < len; ++k) if (a + k < off || a + k >= off + n) add.push_back({a + k, byteAt(o, a + k)});
        it = o->s.erase(it);
    }
    for (auto& x : add) { if (x.second.conc()) o->d[x.first] = (uint8_t)x.second.c; else o->s[x.first] = x.second; }
}
static void storeVal(Obj* o, u64 off, const Val& v) {
    u64 n = std::max<u64>(1, (v.w + 7) / 8);
    splitCells(o, off, n);
    if (v.k == K::C) { u64 c = v.c; for (u64 i = 0; i < n; ++i) { o->d[off + i] = uint8_t(c); c >>= 8; } }
    else if (v.k == K::Big) { APInt a = v.ap().zext(8 * n); for (u64 i = 0; i < n; ++i) o->d[off + i] = (uint8_t)a.extractBitsAsZExtValue(8, i * 8); }
    else o->s[off] = v;
}
static Val loadVal(const Obj* o, u64 off, unsigned w, bool isfp) {
    u64 n = std::max<u64>(1, (w + 7) / 8);
    if (!o->s.empty()) {
        auto it = o->s.find(off);
        if (it != o->s.end() && it->second.w == w) return it->second;
        // any overlap?
        bool ov = false;
        auto jt = o->s.lower_bound(off > 64 ? off - 64 : 0);
        for (; jt != o->s.end() && jt->first < off + n; ++jt) { u64 len = std::max<u64>(1, (jt->second.w + 7) / 8); if (jt->first + len > off) { ov = true; break; } }
        if (ov) {
            z3::expr e(Z); bool first = true; 
            for (u64 i = n; i-- > 0;) { z3::expr b = toBV(byteAt(o, off + i)); e = first ? b : z3::concat(e, b); first = false; }
            if (w == 1) return Val::bv(e.extract(0, 0) == Z.bv_val(1, 1), 1);
            if (w < 8 * n) e = e.extract(w - 1, 0);
            return Val::bv(e, w);
        }
    }
    if (w <= 64) { u64 c = 0; for (u64 i = n; i-- > 0;) c = (c << 8) | o->d[off + i]; return Val(c, w); }
    APInt a(8 * n, 0);
    for (u64 i = 0; i < n; ++i) a.insertBits(APInt(8, o->d[off + i]), i * 8);
    return Val::big(a.trunc(w));
}
static unsigned tyBits(Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isHalfTy() || t->isBFloatTy()) return 16;
    if (t->isX86_FP80Ty()) return 80;
    if (t->isVoidTy()) return 0;
    return 0;
}
static bool isAggTy(Type* t) { return t->isStructTy() || t->isArrayTy() || t->isVectorTy(); }
static unsigned aggN(Type* t) {
    if (auto* s = dyn_cast<StructType>(t)) return s->getNumElements();
    if (auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements();
    return cast<FixedVectorType>(t)->getNumElements();
}
static Type* aggTy(Type* t, unsigned i) {
    if (auto* s = dyn_cast<StructType>(t)) return s->getElementType(i);
    if (auto* a = dyn_cast<ArrayType>(t)) return a->getElementType();
    return cast<FixedVectorType>(t)->getElementType();
}
static u64 aggOff(Type* t, unsigned i) {
    if (auto* s = dyn_cast<StructType>(t)) return DL->getStructLayout(s)->getElementOffset(i);
    return i * DL->getTypeAllocSize(aggTy(t, i));
}
static Val loadTy(const Obj* o, u64 off, Type* t) {
    if (isAggTy(t)) {
        std::vector<Val> v;
        for (unsigned i = 0; i < aggN(t); ++i) v.push_back(loadTy(o, off + aggOff(t, i), aggTy(t, i)));
        return Val::aggr(std::move(v));
    }
    return loadVal(o, off, tyBits(t), t->isFloatingPointTy());
}
static void storeTy(Obj* o, u64 off, Type* t, const Val& v) {
    if (isAggTy(t)) {
        if (v.k != K::Agg) undecided("store agg");
        for (unsigned i = 0; i < aggN(t); ++i) storeTy(o, off + aggOff(t, i), aggTy(t, i), v.agg()[i]);
        return;
    }
    storeVal(o, off, v);
}
static void copyBytes(State& st, u64 dst, u64 src, u64 n) {
    if (n == 0 || dst == src) return;
    ObjRef* rs = access(src, n, false);
    ObjRef hold = *rs;
    ObjRef* rd = access(dst, n, true);
    // collect source
    u64 so = src - hold->base;
    std::vector<std::pair<u64, Val>> cells;
    if (!hold->s.empty()) {
        auto it = hold->s.lower_bound(so > 64 ? so - 64 : 0);
        for (; it != hold->s.end() && it->first < so + n; ++it) {
            u64 len = std::max<u64>(1, (it->second.w + 7) / 8);
            if (it->first + len <= so) continue;
            if (it->first < so || it->first + len > so + n) {
                for (u64 k = 0; k < len; ++k) if (it->first + k >= so && it->first + k < so + n) cells.push_back({it->first + k - so, byteAt(hold.o, it->first + k)});
            } else cells.push_back({it->first - so, it->second});
        }
    }
    std::vector<uint8_t> bytes(hold->d.begin() + so, hold->d.begin() + so + n);
    hold = ObjRef();
    Obj* d = rd->w();
    u64 doff = dst - d->base;
    splitCells(d, doff, n);
    memcpy(d->d.data() + doff, bytes.data(), n);
    for (auto& c : cells) { if (c.second.conc()) storeVal(d, doff + c.first, c.second); else d->s[doff + c.first] = c.second; }
}
static std::string readStr(u64 a) {
    std::string s;
    for (;;) {
        ObjRef* r = access(a, 1, false);
        Val b = byteAt(r->o, a - (*r)->base);
        u64 c = concretize(b);
        if (!c) return s;
        s += char(c); ++a;
        if (s.size() > 100000) undecided("string");
    }
}
static u64 allocHeap(State& st, u64 n, u64 align = 16) {
    if (n > (1ull << 32)) undecided("huge allocation");
    st.hTop = (st.hTop + align - 1) / align * align;
    Obj* o = new Obj; o->base = st.hTop; o->size = n; o->heap = true; o->d.assign(n, 0xA5);
    st.hTop += n + 32;
    u64 b = o->base;
    st.heap.add(ObjRef(o));
    return b;
}
static u64 allocStack(State& st, u64 n, u64 align = 16) {
    st.sTop = (st.sTop + align - 1) / align * align;
    Obj* o = new Obj; o->base = st.sTop; o->size = n; o->d.assign(n, 0xA5);
    st.sTop += n + 32;
    u64 b = o->base;
    st.stack.add(ObjRef(o));
    return b;
}
static void freeHeap(State& st, u64 a) {
    if (!a) return;
    int i = a >= HBASE && a < SBASE ? st.heap.find(a) : -1;
    if (i < 0 || !st.heap.v[i].o || st.heap.v[i]->base != a) fault("memory-safety: valid free", "invalid or double free");
    st.heap.kill(i);
}
static u64 rdU64(u64 a) { ObjRef* r = access(a, 8, false); return concretize(loadVal(r->o, a - (*r)->base, 64, false)); }
static void wrV(u64 a, const Val& v) { ObjRef* r = access(a, std::max(1u, (v.w + 7) / 8), true); Obj* o = r->w(); storeVal(o, a - o->base, v); }

#include "exec.inc"
