// irsym - bounded symbolic execution of LLVM IR with z3 (the deciding back end).
//
// usage: irsym MODULE.bc ENTRY [key=value ...]   -> one JSON object on stdout
//
// Values
//   CONC  concrete bits (ints, pointers, floats, doubles)
//   BV    z3 bit-vector (width 1 is kept as a z3 Bool)
//   FI    float/double whose value is the integer n * 2^scale: an exact domain.  Every operation is
//         range tracked; an operation that could round stops the run as inconclusive.
//   FP    float/double as a z3 IEEE-754 term (all bit patterns)
//   CAT   concatenation of memory cells that were loaded as one integer
//   AGG   struct / array / vector
//   UNDEF uninitialised; copying it is fine, deciding or dereferencing with it is a violation
//
// Pointers are integers: (object id << 32) + BASE + offset.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <z3++.h>
#include <chrono>
#include <thread>
#include <cmath>
#include <deque>
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <functional>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <unistd.h>
#include <vector>

using namespace llvm;
typedef uint64_t u64;
typedef int64_t i64;
typedef unsigned __int128 u128;

static std::unique_ptr<z3::context> ZC;
static z3::context& Z() { return *ZC; }

// ------------------------------------------------------------------ errors
struct Inconclusive { std::string msg; };
[[noreturn]] static void inconclusive(const std::string& m) { throw Inconclusive{m}; }

// ------------------------------------------------------------------ values
enum Kind : uint8_t { UNDEF, CONC, BV, FI, FPV, CAT, AGG };
struct Val;
struct Node {
    z3::expr e;
    double lo = 0, hi = 0;   // FI: bounds of the mantissa integer
    int scale = 0;           // FI
    bool opaque = false;     // FI: result of an uninterpreted function (sqrt)
    std::vector<Val> parts;  // CAT / AGG
    Node(z3::expr x) : e(x) {}
    Node() : e(Z()) {}
};
struct Val {
    Kind k = UNDEF;
    uint16_t w = 0; // bit width (0 for AGG)
    u64 c = 0;
    std::shared_ptr<Node> n;
    const z3::expr& e() const { return n->e; }
    const std::vector<Val>& parts() const { return n->parts; }
};
static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline Val C(u64 v, unsigned w) { Val r; r.k = CONC; r.w = w; r.c = v & maskw(w); return r; }
static inline Val U(unsigned w) { Val r; r.k = UNDEF; r.w = w; return r; }
static inline Val mkAgg(std::vector<Val> p) { Val r; r.k = AGG; r.n = std::make_shared<Node>(); r.n->parts = std::move(p); return r; }
static Val mkBV(z3::expr e, unsigned w)
{
    if (w == 1) {
        if (e.is_true()) return C(1, 1);
        if (e.is_false()) return C(0, 1);
    } else {
        u64 v;
        if (e.is_numeral_u64(v)) return C(v, w);
    }
    Val r; r.k = BV; r.w = w; r.n = std::make_shared<Node>(e); return r;
}
static double bitsToD(u64 b, unsigned w)
{
    if (w == 32) { uint32_t x = (uint32_t)b; float f; memcpy(&f, &x, 4); return f; }
    double d; memcpy(&d, &b, 8); return d;
}
static u64 dToBits(double d, unsigned w)
{
    if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; }
    u64 b; memcpy(&b, &d, 8); return b;
}
static z3::sort fpSort(unsigned w) { return w == 32 ? Z().fpa_sort(8, 24) : Z().fpa_sort(11, 53); }
static z3::expr RNE() { return z3::expr(Z(), Z3_mk_fpa_rne(Z())); }
static z3::expr wrapE(Z3_ast a) { Z().check_error(); return z3::expr(Z(), a); }

static z3::expr intNum(double v)
{
    // exact decimal of an integral double
    char buf[400]; snprintf(buf, sizeof buf, "%.0f", v);
    return Z().int_val(buf);
}
// a value that is known to be representable
static Val mkFIraw(z3::expr e, unsigned w, double lo, double hi, int scale, bool opaque)
{
    if (lo == hi && !opaque) return C(dToBits(std::ldexp(lo, scale), w), w);
    Val r; r.k = FI; r.w = w; r.n = std::make_shared<Node>(e);
    r.n->lo = lo; r.n->hi = hi; r.n->scale = scale; r.n->opaque = opaque;
    return r;
}
// e rounded to the nearest integer with at most p significant bits, ties to even (|e| <= m)
static z3::expr roundInt(z3::expr e, int p, double m)
{
    z3::expr r = e, abs = z3::ite(e < 0, -e, e);
    for (int k = p; std::ldexp(1.0, k) < m; ++k) { // 2^k < |e| <= 2^(k+1)
        if (k > p + 40) inconclusive("floating-point value leaves the integer range");
        z3::expr q = intNum(std::ldexp(1.0, k - p + 1)), f = wrapE(Z3_mk_div(Z(), e, q)), rem = wrapE(Z3_mk_mod(Z(), e, q)), even = wrapE(Z3_mk_mod(Z(), f, Z().int_val(2))) == 0;
        r = z3::ite(abs > intNum(std::ldexp(1.0, k)), z3::ite(rem * 2 < q || (rem * 2 == q && even), f, f + 1) * q, r);
    }
    return r;
}
// the value e*2^scale rounded to a float of w bits as IEEE-754 does (opaque values - roots and quotients - are ideal)
static Val mkFI(z3::expr e, unsigned w, double lo, double hi, int scale = 0, bool opaque = false)
{
    if (!opaque) {
        double m = std::max(std::fabs(lo), std::fabs(hi));
        if (std::ldexp(m, scale) > (w == 32 ? 3.4e38 : 1.7e308) || scale < (w == 32 ? -149 : -1074)) inconclusive("floating-point value leaves the normal range");
        if (m > (w == 32 ? 16777216.0 : 9007199254740992.0)) e = roundInt(e, w == 32 ? 24 : 53, m);
        if (w == 32) { lo = (float)lo; hi = (float)hi; }
    }
    return mkFIraw(e, w, lo, hi, scale, opaque);
}
// a concrete float as exact integer n*2^scale; false when inf/nan
static bool concFI(u64 bits, unsigned w, double& n, int& scale)
{
    double d = bitsToD(bits, w);
    if (!std::isfinite(d)) return false;
    scale = 0; n = d;
    if (d == 0) return true;
    int guard = 0;
    while (n != std::floor(n)) { n *= 2; --scale; if (++guard > 1200) return false; }
    return true;
}

static z3::expr bvOf(const Val& v); // BV term (or Bool turned into BV1 for w==1)
static z3::expr boolOf(const Val& v)
{
    if (v.k == CONC) return Z().bool_val(v.c & 1);
    if (v.k == BV && v.w == 1) return v.e();
    if (v.k == UNDEF) inconclusive("boolOf undef");
    inconclusive("boolOf kind");
}
static z3::expr fpOf(const Val& v)
{
    unsigned w = v.w;
    if (v.k == CONC) {
        z3::expr b = Z().bv_val((uint64_t)v.c, w);
        return wrapE(Z3_mk_fpa_to_fp_bv(Z(), b, fpSort(w))).simplify();
    }
    if (v.k == FPV) return v.e();
    if (v.k == BV) return wrapE(Z3_mk_fpa_to_fp_bv(Z(), v.e(), fpSort(w)));
    if (v.k == FI) inconclusive("mixing exact-integer and IEEE symbolic floats");
    inconclusive("fpOf kind");
}
static z3::expr bvOf(const Val& v)
{
    if (v.k == CONC) return Z().bv_val((uint64_t)v.c, v.w);
    if (v.k == BV) {
        if (v.w == 1) return z3::ite(v.e(), Z().bv_val(1, 1), Z().bv_val(0, 1));
        return v.e();
    }
    if (v.k == FPV) return wrapE(Z3_mk_fpa_to_ieee_bv(Z(), v.e()));
    if (v.k == CAT) {
        z3::expr r(Z()); bool first = true;
        for (auto& p : v.parts()) { // memory order: low part first
            z3::expr pe = bvOf(p);
            if (first) { r = pe; first = false; } else r = z3::concat(pe, r);
        }
        return r;
    }
    if (v.k == FI) inconclusive("bit-level use of an exact-integer float");
    inconclusive("bvOf kind");
}
static bool hasUndef(const Val& v)
{
    if (v.k == UNDEF) return true;
    if (v.k == CAT || v.k == AGG) { for (auto& p : v.parts()) if (hasUndef(p)) return true; }
    return false;
}
static Val mkFP(z3::expr e, unsigned w) { Val r; r.k = FPV; r.w = w; r.n = std::make_shared<Node>(e); return r; }

// lift a concrete/FI to FI form
struct FIv { z3::expr e; double lo, hi; int scale; bool opaque; FIv() : e(Z()), lo(0), hi(0), scale(0), opaque(false) {} };
static bool toFI(const Val& v, FIv& o)
{
    if (v.k == FI) { o.e = v.e(); o.lo = v.n->lo; o.hi = v.n->hi; o.scale = v.n->scale; o.opaque = v.n->opaque; return true; }
    if (v.k == CONC) {
        double n; int s;
        if (!concFI(v.c, v.w, n, s)) return false;
        o.e = intNum(n); o.lo = o.hi = n; o.scale = s; o.opaque = false; return true;
    }
    return false;
}
static void align(FIv& a, FIv& b)
{
    int s = std::min(a.scale, b.scale);
    auto sh = [&](FIv& x) {
        int d = x.scale - s;
        if (d == 0) return;
        if (d > 1000) inconclusive("exact-integer float: scale difference too large");
        double f = std::ldexp(1.0, d);
        x.e = x.e * intNum(f); x.lo *= f; x.hi *= f; x.scale = s;
    };
    sh(a); sh(b);
}

// ------------------------------------------------------------------ memory
enum ObjKind : uint8_t { OGLOBAL, OCONST, OSTACK, OHEAP, OEXC, OFUNC, OEXTERN, ORT };
struct Obj {
    ObjKind kind; uint8_t allocKind = 0; // 0 malloc, 1 new, 2 new[], 3 blaze
    bool alive = true;
    u64 size = 0;
    std::vector<uint8_t> data, st; // st: 0 uninit 1 concrete 2 sym start 3 sym cont
    std::map<uint32_t, Val> sym;
    std::string name;
};
typedef std::shared_ptr<Obj> ObjP;
static const u64 BASE = 0x40000000ull;
static inline u64 mkAddr(u64 id, u64 off = 0) { return (id << 32) + BASE + off; }

// ------------------------------------------------------------------ functions
struct Opnd { int slot = -1; Val c; };
struct FInfo;
struct Inst {
    unsigned op; const Instruction* I; int dst = -1; std::vector<Opnd> o;
    unsigned w = 0;     // result width
    Type* ty = nullptr; // result type
    u64 aux = 0, aux2 = 0; std::vector<std::pair<int, i64>> gep; i64 gepConst = 0; // gep: operand index, scale
    int bb0 = -1, bb1 = -1;
    const Function* callee = nullptr; FInfo* cf = nullptr;
    bool seen = false;  // executed (line coverage for developers, option cover=FILE)
};
struct BBInfo { std::vector<Inst> in; const BasicBlock* bb; int firstNonPhi = 0; };
struct FInfo {
    const Function* F; std::vector<BBInfo> bbs; int nslots = 0; bool decoded = false;
    std::unordered_map<const BasicBlock*, int> bbIdx;
    std::string name; u64 calls = 0;
};
struct Frame {
    FInfo* f; int bb = 0, ip = 0, prev = -1;
    std::vector<Val> regs; std::vector<u64> allocas;
    int retSlot = -1; // slot in caller
    int normalBB = -1; // caller invoke normal dest (or -1 = ordinary call)
    int unwindBB = -1;
    bool isDtorCall = false; // return value ignored
};
struct PC { std::shared_ptr<PC> up; z3::expr e; int depth; PC(std::shared_ptr<PC> u, z3::expr x) : up(u), e(x), depth(u ? u->depth + 1 : 1) {} };
typedef std::shared_ptr<PC> PCP;
struct SymVar { std::string name; z3::expr e; char kind; unsigned w; };
struct Obs { std::string label; Val v; char ty; };
struct ExcRec { u64 obj; u64 tinfo; u64 dtor; int handlers = 0; };
struct State {
    std::vector<Frame> fr;
    std::vector<ObjP> mem; // index = id
    PCP pc;
    std::shared_ptr<z3::model> model;
    std::shared_ptr<std::vector<SymVar>> syms;
    std::map<std::string, int> nameCnt;
    std::vector<Obs> obs;
    std::vector<ExcRec> excs;     // live exception objects
    std::vector<u64> caught;      // caught stack (exc obj addr)
    std::map<u64, u64> conc;      // z3 ast id -> concretised value
    std::vector<z3::expr> keep;
    u64 leakMark = 0;
    std::deque<u64> freeIds;
    u64 rtDepth = 0; u64 nInstr = 0;
    u64 allocsLeft = ~0ull;       // fault injection: allocation number that throws bad_alloc
    std::vector<std::string> reached;
    std::vector<std::pair<z3::expr, z3::expr>> roots; // argument and result of the square roots on this path
};
typedef std::shared_ptr<State> StateP;

struct PathEnd { };
struct ForkVals { std::vector<std::pair<z3::expr, u64>> alts; z3::expr key; };
struct Branch2 { z3::expr c; };

// ------------------------------------------------------------------ engine
struct Violation { std::string kind, label, where; std::vector<std::pair<std::string, std::string>> inputs; std::vector<std::string> stack; };
struct Engine {
    std::unique_ptr<Module> M; const DataLayout* DL;
    std::unordered_map<const Function*, std::unique_ptr<FInfo>> funcs;
    std::unordered_map<const GlobalValue*, u64> gid; std::vector<const GlobalValue*> gById; // id -> gv
    std::unordered_map<u64, const Function*> fnById;
    StateP root;
    std::vector<StateP> work;
    // solver
    std::unique_ptr<z3::solver> S; std::vector<PCP> sstack;
    u64 queries = 0, instrs = 0, paths = 0, forks = 0, asserts = 0, assertQ = 0, trivial = 0; double solverT = 0; double maxQ = 0;
    std::map<std::string, u64> reach, assertCnt, assertUnsat;
    std::vector<Violation> viol; std::map<std::string, size_t> violKeys; std::map<std::string, int> rootTries;
    std::set<std::string> fnSeen; std::map<std::string, std::string> repoFns;
    std::vector<std::string> samples;
    std::vector<std::string> inconc;
    // options
    u64 maxInstr = 4000000000ull; double timeout = 800; unsigned qTimeout = 60000; unsigned maxViol = 12; unsigned maxSamples = 3;
    u64 maxPaths = 2000000; u64 pathInstr = 30000000; u64 seed = 1; bool fpMode = false; std::string repo = "/repo/"; bool trace = false; std::string coverFile;
    std::chrono::steady_clock::time_point t0;
    typedef std::function<void(State&, Frame&, Inst&, std::vector<Val>&)> Builtin;
    std::unordered_map<std::string, Builtin> builtins;
    std::map<std::string, int> tiIds;

    double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

    double violT = 0; // time of the last violation; a while later the search for more of them ends
    void timeCheck() { if (now() > timeout) inconclusive("time budget exhausted"); if (!viol.empty() && now() > violT + 90) inconclusive("ended after a violation"); }
    // ---------------- solver
    void syncSolver(const PCP& pc)
    {
        std::vector<PCP> want; for (PCP p = pc; p; p = p->up) want.push_back(p);
        std::reverse(want.begin(), want.end());
        size_t k = 0; while (k < want.size() && k < sstack.size() && want[k] == sstack[k]) ++k;
        if (sstack.size() > k) { S->pop(sstack.size() - k); sstack.resize(k); }
        for (; k < want.size(); ++k) { S->push(); S->add(want[k]->e); sstack.push_back(want[k]); }
    }
    void setTimeout(z3::solver& s) { z3::params p(Z()); p.set("timeout", qTimeout); s.set(p); }
    z3::check_result query(const PCP& pc, const z3::expr* extra, std::shared_ptr<z3::model>* mo)
    {
        auto t = std::chrono::steady_clock::now();
        z3::check_result r;
        ++queries;
        if (fpMode) {
            z3::solver s = (z3::tactic(Z(), "simplify") & z3::tactic(Z(), "qffp")).mk_solver();
            setTimeout(s);
            for (PCP p = pc; p; p = p->up) s.add(p->e);
            if (extra) s.add(*extra);
            r = s.check();
            if (r == z3::sat && mo) *mo = std::make_shared<z3::model>(s.get_model());
        } else {
            syncSolver(pc);
            if (extra) { S->push(); S->add(*extra); }
            r = S->check();
            if (r == z3::sat && mo) *mo = std::make_shared<z3::model>(S->get_model());
            if (extra) S->pop();
            if (r == z3::unknown) { // one-shot retry, non-incremental
                z3::solver s(Z()); setTimeout(s);
                for (PCP p = pc; p; p = p->up) s.add(p->e);
                if (extra) s.add(*extra);
                if (getenv("SV_DUMP")) { std::ofstream o(std::string(getenv("SV_DUMP")) + std::to_string(queries) + ".smt2"); o << s.to_smt2(); }
                r = s.check();
                if (r == z3::sat && mo) *mo = std::make_shared<z3::model>(s.get_model());
            }
        }
        double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count();
        solverT += dt; maxQ = std::max(maxQ, dt);
        if (r == z3::unknown) inconclusive("solver returned unknown");
        return r;
    }
    bool evalModel(State& s, const z3::expr& c, bool& out)
    {
        if (!s.model) return false;
        z3::expr v = s.model->eval(c, true);
        if (v.is_true()) { out = true; return true; }
        if (v.is_false()) { out = false; return true; }
        return false;
    }
    void addPC(State& s, const z3::expr& c) { s.pc = std::make_shared<PC>(s.pc, c); }
    // feasibility of c in s; keeps s.model untouched
    bool feasible(State& s, const z3::expr& c, std::shared_ptr<z3::model>* mo = nullptr)
    {
        if (c.is_true()) return true;
        if (c.is_false()) return false;
        bool b; if (evalModel(s, c, b) && b) { if (mo) *mo = s.model; return true; }
        std::shared_ptr<z3::model> m;
        bool r = query(s.pc, &c, &m) == z3::sat;
        if (r && mo) *mo = m;
        return r;
    }
    void assume(State& s, const z3::expr& c)
    {
        z3::expr d = c.simplify();
        if (d.is_true()) return;
        std::shared_ptr<z3::model> m;
        if (!feasible(s, d, &m)) throw PathEnd{};
        addPC(s, d); s.model = m;
    }
    StateP clone(State& s) { ++forks; return std::make_shared<State>(s); }
    // decide a condition, forking when both sides are feasible; other side is pushed with same ip (re-executes)
    // returns chosen value for this state
    bool decide(State& s, const z3::expr& c0, const std::function<void(State&, bool)>& apply)
    {
        z3::expr c = c0.simplify();
        if (c.is_true()) return true;
        if (c.is_false()) return false;
        std::shared_ptr<z3::model> mt, mf;
        bool ft = feasible(s, c, &mt); z3::expr nc = !c;
        bool ff = feasible(s, nc, &mf);
        if (ft && ff) {
            StateP o = clone(s);
            addPC(*o, nc); o->model = mf; apply(*o, false); work.push_back(o);
            addPC(s, c); s.model = mt; return true;
        }
        if (ft) { return true; }
        if (ff) { return false; }
        throw PathEnd{};
    }
    // concretise a BV value; forks over all feasible values
    u64 concretize(State& s, const Val& v0, unsigned limit = 1500)
    {
        if (v0.k == CONC) return v0.c;
        if (hasUndef(v0)) violation(s, "uninit", "uninitialised value decides control flow or an address");
        z3::expr e = (v0.w == 1 ? z3::ite(boolOf(v0), Z().bv_val(1, 8), Z().bv_val(0, 8)) : bvOf(v0)).simplify();
        u64 num; if (e.is_numeral_u64(num)) return num;
        auto it = s.conc.find(e.id());
        if (it != s.conc.end()) return it->second;
        std::vector<u64> vals; std::vector<std::shared_ptr<z3::model>> ms;
        z3::expr ex = Z().bool_val(true);
        for (;;) {
            std::shared_ptr<z3::model> m;
            if (vals.empty() && s.model) m = s.model;
            else if (query(s.pc, vals.empty() ? nullptr : &ex, &m) != z3::sat) break;
            u64 x; if (!m->eval(e, true).is_numeral_u64(x)) inconclusive("concretize: no numeral");
            vals.push_back(x); ms.push_back(m);
            if (vals.size() > limit) inconclusive("too many values for a concretised expression");
            z3::expr ne = e != Z().bv_val((uint64_t)x, e.get_sort().bv_size());
            ex = vals.size() == 1 ? ne : (ex && ne);
        }
        if (vals.empty()) throw PathEnd{};
        for (size_t i = vals.size(); i-- > 1;) {
            StateP o = clone(s);
            addPC(*o, e == Z().bv_val((uint64_t)vals[i], e.get_sort().bv_size()));
            o->model = ms[i]; o->conc[e.id()] = vals[i]; o->keep.push_back(e);
            work.push_back(o); // re-executes the same instruction
        }
        if (vals.size() > 1) addPC(s, e == Z().bv_val((uint64_t)vals[0], e.get_sort().bv_size()));
        s.model = ms[0]; s.conc[e.id()] = vals[0]; s.keep.push_back(e);
        return vals[0];
    }

    // ---------------- reporting
    std::string locOf(const Instruction* I)
    {
        if (!I) return "";
        if (DebugLoc d = I->getDebugLoc()) {
            std::string f; if (auto* sc = d->getScope()) f = (sc->getDirectory().empty() || sc->getFilename().starts_with("/") ? "" : sc->getDirectory().str() + "/") + sc->getFilename().str();
            return f + ":" + std::to_string(d.getLine());
        }
        return "";
    }
    std::vector<std::string> stackOf(State& s)
    {
        std::vector<std::string> r;
        for (size_t i = s.fr.size(); i-- > 0 && r.size() < 24;) {
            Frame& f = s.fr[i];
            const Instruction* I = nullptr;
            if (f.bb >= 0 && f.bb < (int)f.f->bbs.size() && f.ip < (int)f.f->bbs[f.bb].in.size()) I = f.f->bbs[f.bb].in[f.ip].I;
            r.push_back(demangle(f.f->name) + " @ " + locOf(I));
        }
        return r;
    }
    std::vector<std::pair<std::string, std::string>> inputsOf(State& s, z3::model& m)
    {
        std::vector<std::pair<std::string, std::string>> r;
        for (auto& v : *s.syms) {
            z3::expr x = m.eval(v.e, true);
            std::string t;
            if (v.kind == 'i') { u64 n = 0; x.is_numeral_u64(n); if (v.w < 64 && (n >> (v.w - 1)) & 1) n |= ~maskw(v.w); t = std::to_string((i64)n); }
            else if (v.kind == 'b') { u64 n = 0; x.is_numeral_u64(n); char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)n); t = b; }
            else { t = x.to_string(); if (t.size() > 3 && t[0] == '(') { t = "-" + t.substr(3, t.size() - 4); } }
            r.push_back({v.name, t});
        }
        return r;
    }
    /// a counterexample whose square roots are the true ones, if the solver finds one
    double rootT = 0;
    std::shared_ptr<z3::model> realRoots(State& s, const z3::expr* extra)
    {
        if (s.roots.empty()) return nullptr;
        for (int most : {0, 1}) {
            if (rootT > 40) return nullptr;
            struct Clock { Engine& e; double t; Clock(Engine& x) : e(x), t(x.now()) {} ~Clock() { e.rootT += e.now() - t; } } clock(*this);
            z3::solver q(Z()); z3::params p(Z()); p.set("timeout", 8000u); q.set(p);
            for (PCP c = s.pc; c; c = c->up) q.add(c->e);
            if (extra) q.add(*extra);
            for (auto& r : s.roots) {
                q.add(r.second >= 0 && r.second * r.second == r.first);
                if (!most) { z3::expr in = Z().bool_val(false); for (int k = 0; k <= 12; ++k) in = in || (r.second == k && r.first == k * k); q.add(in); }
            }
            if (q.check() == z3::sat) return std::make_shared<z3::model>(q.get_model());
        }
        return nullptr;
    }
    void record(State& s, const std::string& kind, const std::string& label, std::shared_ptr<z3::model> m, const z3::expr* extra = nullptr)
    {
        std::string key = kind + "|" + label;
        auto had = violKeys.find(key); if (had != violKeys.end() && (had->second == ~size_t(0) || s.roots.empty())) return;
        if (had != violKeys.end() && ++rootTries[key] > 40) return;
        auto real = realRoots(s, extra); if (had != violKeys.end() && !real) return;
        Violation v; v.kind = kind; v.label = label; v.stack = stackOf(s); v.where = v.stack.empty() ? "" : v.stack[0];
        if (real) m = real;
        if (!m) query(s.pc, nullptr, &m);
        v.inputs = inputsOf(s, *m);
        if (had != violKeys.end()) { viol[had->second] = v; had->second = ~size_t(0); return; }
        violKeys[key] = real || s.roots.empty() ? ~size_t(0) : viol.size(); // a counterexample with true roots may replace this one
        viol.push_back(v); violT = now();
    }
    [[noreturn]] void violation(State& s, const std::string& kind, const std::string& label)
    {
        // the current path is feasible by construction
        std::string l = label;
        if (kind != "assert") { // first frame in the repository (or harness)
            for (auto& f : stackOf(s)) if (f.find(repo) != std::string::npos) { l += " in " + f.substr(0, f.find(" @ ")); break; }
        }
        record(s, kind, l, s.model);
        throw PathEnd{};
    }

    // ---------------- memory
    u64 newObj(State& s, u64 size, ObjKind k, const std::string& name = "", uint8_t ak = 0)
    {
        auto o = std::make_shared<Obj>(); o->kind = k; o->size = size; o->name = name; o->allocKind = ak;
        if (size > (1u << 28)) inconclusive("allocation of " + std::to_string(size) + " bytes");
        o->data.assign(size, 0); o->st.assign(size, 0);
        // stack slots may be reused; heap ids are unique, so stale heap pointers are always recognised
        if (k == OSTACK && s.freeIds.size() > 256) { u64 id = s.freeIds.front(); s.freeIds.pop_front(); s.mem[id] = o; return id; }
        s.mem.push_back(o); return s.mem.size() - 1;
    }
    Obj& wr(State& s, u64 id)
    {
        if (s.mem[id].use_count() > 1) s.mem[id] = std::make_shared<Obj>(*s.mem[id]);
        return *s.mem[id];
    }
    // resolves [addr, addr+n) ; throws violation
    u64 resolve(State& s, u64 addr, u64 n, bool write, u64& off)
    {
        u64 id = addr >> 32; off = (addr & 0xffffffffull) - BASE;
        if (addr < 0x10000) violation(s, "memory", "null pointer dereference");
        if ((addr & 0xffffffffull) >= 0xC0000000ull) { }
        if (id == 0 || id >= s.mem.size() || !s.mem[id]) violation(s, "memory", "access through a wild pointer");
        Obj& o = *s.mem[id];
        if (!o.alive) violation(s, "memory", o.kind == OSTACK ? "use of a dead stack object" : "use after free");
        if (o.kind == OEXTERN) inconclusive("access to external object " + o.name);
        if (o.kind == OFUNC) violation(s, "memory", "data access to a function");
        if ((i64)off < 0 || off + n > o.size) violation(s, "memory", std::string("out-of-bounds ") + (write ? "write" : "read") + (o.kind == OHEAP ? " (heap)" : o.kind == OSTACK ? " (stack)" : " (global)"));
        if (write && o.kind == OCONST) violation(s, "memory", "write to constant memory");
        return id;
    }
    void clearRange(State& s, Obj& o, u64 off, u64 n)
    {
        if (o.sym.empty()) return;
        // split symbolic cells that straddle the range
        auto it = o.sym.upper_bound((uint32_t)off);
        if (it != o.sym.begin()) {
            --it;
            u64 a = it->first, len = (it->second.w + 7) / 8;
            if (a < off && a + len > off) {
                Val v = it->second; splitCell(o, a, v);
            }
        }
        it = o.sym.lower_bound((uint32_t)off);
        while (it != o.sym.end() && it->first < off + n) {
            u64 a = it->first, len = (it->second.w + 7) / 8;
            if (a + len > off + n) { Val v = it->second; splitCell(o, a, v); it = o.sym.lower_bound((uint32_t)a); continue; }
            o.sym.erase(it++);
        }
    }
    void splitCell(Obj& o, u64 a, const Val& v)
    {
        unsigned len = (v.w + 7) / 8;
        o.sym.erase((uint32_t)a);
        if (v.k == FI) inconclusive("partial access to an exact-integer float");
        z3::expr e = bvOf(v);
        if (v.w == 1) e = z3::zext(e, 7);
        else if (v.w % 8) e = z3::zext(e, 8 - v.w % 8);
        for (unsigned i = 0; i < len; ++i) {
            z3::expr b = e.extract(8 * i + 7, 8 * i).simplify();
            putCell(o, a + i, mkBV(b, 8));
        }
    }
    void putCell(Obj& o, u64 off, const Val& v) // range already cleared
    {
        unsigned len = (v.w + 7) / 8;
        if (v.k == CONC) {
            for (unsigned i = 0; i < len; ++i) { o.data[off + i] = (uint8_t)(v.c >> (8 * i)); o.st[off + i] = 1; }
        } else if (v.k == UNDEF) {
            for (unsigned i = 0; i < len; ++i) o.st[off + i] = 0;
        } else if (v.k == CAT) {
            u64 p = off; for (auto& x : v.parts()) { putCell(o, p, x); p += (x.w + 7) / 8; }
        } else if (v.k == AGG) inconclusive("putCell agg");
        else {
            o.st[off] = 2; for (unsigned i = 1; i < len; ++i) o.st[off + i] = 3;
            o.sym[(uint32_t)off] = v;
        }
    }
    void storeScalar(State& s, u64 addr, const Val& v)
    {
        u64 off; u64 n = (v.w + 7) / 8;
        u64 id = resolve(s, addr, n, true, off);
        Obj& o = wr(s, id);
        clearRange(s, o, off, n);
        putCell(o, off, v);
    }
    Val loadScalar(State& s, u64 addr, unsigned w)
    {
        u64 off; u64 n = (w + 7) / 8;
        u64 id = resolve(s, addr, n, false, off);
        Obj& o = *s.mem[id];
        bool allc = true, anyc = false;
        for (u64 i = 0; i < n; ++i) { if (o.st[off + i] != 1) allc = false; if (o.st[off + i] != 0) anyc = true; }
        if (allc && n <= 8) {
            u64 v = 0; for (u64 i = 0; i < n; ++i) v |= (u64)o.data[off + i] << (8 * i);
            return C(v, w);
        }
        if (!anyc) return U(w);
        if (o.st[off] == 2) {
            auto it = o.sym.find((uint32_t)off);
            if (it->second.w == w) return it->second;
            if (w == 8 && it->second.w == 1) { return mkBV(z3::ite(it->second.e(), Z().bv_val(1, 8), Z().bv_val(0, 8)), 8); }
            if (w == 1 && it->second.w == 8 && it->second.k == BV) return mkBV((it->second.e().extract(0, 0) == Z().bv_val(1, 1)).simplify(), 1);
        }
        // assemble
        Val r; r.k = CAT; r.w = w; r.n = std::make_shared<Node>();
        auto& P = r.n->parts;
        u64 i = 0; bool pureBV = true;
        if (w % 8) inconclusive("odd width composite load");
        while (i < n) {
            uint8_t t = o.st[off + i];
            if (t == 1 || t == 0) {
                u64 j = i; while (j < n && o.st[off + j] == t && j - i < 8) ++j;
                if (t == 0) { P.push_back(U((unsigned)(8 * (j - i)))); pureBV = false; }
                else { u64 v = 0; for (u64 q = i; q < j; ++q) v |= (u64)o.data[off + q] << (8 * (q - i)); P.push_back(C(v, (unsigned)(8 * (j - i)))); }
                i = j;
            } else {
                // find cell start
                u64 a = off + i; while (o.st[a] == 3) --a;
                Val v = o.sym.find((uint32_t)a)->second; u64 len = (v.w + 7) / 8;
                if (a == off + i && i + len <= n) {
                    if (v.w == 1) v = mkBV(z3::ite(v.e(), Z().bv_val(1, 8), Z().bv_val(0, 8)), 8);
                    P.push_back(v); i += len; if (v.k != BV) pureBV = false;
                } else {
                    if (v.k == FI) inconclusive("partial load of an exact-integer float");
                    z3::expr e = bvOf(v); u64 from = off + i - a, cnt = std::min(len - from, n - i);
                    P.push_back(mkBV(e.extract((unsigned)(8 * (from + cnt) - 1), (unsigned)(8 * from)).simplify(), (unsigned)(8 * cnt))); i += cnt;
                }
            }
        }
        if (P.size() == 1) { Val x = P[0]; x.w = w; return x; }
        if (pureBV) return mkBV(bvOf(r).simplify(), w);
        return r;
    }
    unsigned bits(Type* t)
    {
        if (t->isPointerTy()) return 64;
        if (t->isIntegerTy()) return t->getIntegerBitWidth();
        if (t->isFloatTy()) return 32;
        if (t->isDoubleTy()) return 64;
        return 0;
    }
    Val load(State& s, u64 addr, Type* t)
    {
        if (unsigned w = bits(t)) {
            if (w > 64) { // i128: as composite
                return loadWide(s, addr, w);
            }
            return loadScalar(s, addr, w);
        }
        std::vector<Val> p;
        if (auto* st = dyn_cast<StructType>(t)) {
            auto* L = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); ++i) p.push_back(load(s, addr + L->getElementOffset(i), st->getElementType(i)));
        } else if (auto* at = dyn_cast<ArrayType>(t)) {
            u64 sz = DL->getTypeAllocSize(at->getElementType());
            for (u64 i = 0; i < at->getNumElements(); ++i) p.push_back(load(s, addr + i * sz, at->getElementType()));
        } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
            u64 sz = DL->getTypeAllocSize(vt->getElementType());
            for (u64 i = 0; i < vt->getNumElements(); ++i) p.push_back(load(s, addr + i * sz, vt->getElementType()));
        } else { std::string q; raw_string_ostream os(q); t->print(os); inconclusive("load of type " + os.str()); }
        return mkAgg(p);
    }
    Val loadWide(State& s, u64 addr, unsigned w)
    {
        Val r; r.k = CAT; r.w = w; r.n = std::make_shared<Node>();
        for (unsigned i = 0; i < w; i += 64) r.n->parts.push_back(loadScalar(s, addr + i / 8, std::min(64u, w - i)));
        return r;
    }
    void store(State& s, u64 addr, const Val& v, Type* t)
    {
        if (unsigned w = bits(t)) {
            Val x = v; x.w = w;
            storeScalar(s, addr, x); return;
        }
        if (v.k == UNDEF) { // whole aggregate undefined
            u64 n = DL->getTypeStoreSize(t), off; u64 id = resolve(s, addr, n, true, off); Obj& o = wr(s, id); clearRange(s, o, off, n);
            for (u64 i = 0; i < n; ++i) o.st[off + i] = 0; return;
        }
        if (v.k != AGG) inconclusive("store: aggregate expected");
        if (auto* st = dyn_cast<StructType>(t)) {
            auto* L = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); ++i) store(s, addr + L->getElementOffset(i), v.parts()[i], st->getElementType(i));
        } else if (auto* at = dyn_cast<ArrayType>(t)) {
            u64 sz = DL->getTypeAllocSize(at->getElementType());
            for (u64 i = 0; i < at->getNumElements(); ++i) store(s, addr + i * sz, v.parts()[i], at->getElementType());
        } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
            u64 sz = DL->getTypeAllocSize(vt->getElementType());
            for (u64 i = 0; i < vt->getNumElements(); ++i) store(s, addr + i * sz, v.parts()[i], vt->getElementType());
        } else inconclusive("store type");
    }
    void memCopy(State& s, u64 d, u64 sAddr, u64 n)
    {
        if (n == 0) return;
        u64 so, dof; u64 sid = resolve(s, sAddr, n, false, so); u64 did = resolve(s, d, n, true, dof);
        // snapshot of source
        Obj& so_ = *s.mem[sid];
        std::vector<uint8_t> dat(so_.data.begin() + so, so_.data.begin() + so + n), st(so_.st.begin() + so, so_.st.begin() + so + n);
        std::vector<std::pair<u64, Val>> cells;
        for (u64 i = 0; i < n;) {
            if (st[i] < 2) { ++i; continue; }
            u64 a = so + i; while (so_.st[a] == 3) --a;
            Val v = so_.sym.find((uint32_t)a)->second; u64 len = (v.w + 7) / 8;
            if (a == so + i && i + len <= n) { cells.push_back({i, v}); i += len; }
            else {
                if (v.k == FI) inconclusive("partial memcpy of an exact-integer float");
                z3::expr e = bvOf(v); if (v.w < 8) e = z3::zext(e, 8 - v.w);
                u64 from = so + i - a, cnt = std::min(len - from, n - i);
                cells.push_back({i, mkBV(e.extract((unsigned)(8 * (from + cnt) - 1), (unsigned)(8 * from)).simplify(), (unsigned)(8 * cnt))}); i += cnt;
            }
        }
        Obj& o = wr(s, did); clearRange(s, o, dof, n);
        for (u64 i = 0; i < n; ++i) { o.data[dof + i] = dat[i]; o.st[dof + i] = st[i] < 2 ? st[i] : 0; }
        for (auto& c : cells) putCell(o, dof + c.first, c.second);
    }
    u64 alloc(State& s, u64 n, ObjKind k, uint8_t ak, const char* nm = "") { return mkAddr(newObj(s, n, k, nm, ak)); }
    void dealloc(State& s, u64 a, uint8_t ak)
    {
        if (a == 0) return;
        u64 id = a >> 32, off = (a & 0xffffffffull) - BASE;
        if (id == 0 || id >= s.mem.size() || !s.mem[id]) violation(s, "memory", "free of a wild pointer");
        Obj& o = *s.mem[id];
        if (o.kind != OHEAP && o.kind != ORT) violation(s, "memory", "free of memory that is not heap allocated");
        if (!o.alive) violation(s, "memory", "double free");
        if (off != 0) violation(s, "memory", "free of an interior pointer");
        if (o.allocKind != ak) violation(s, "memory", "mismatched allocation and deallocation functions");
        Obj& w = wr(s, id); w.alive = false; w.data.clear(); w.st.clear(); w.sym.clear(); w.data.shrink_to_fit(); w.st.shrink_to_fit();
    }
    std::string cstr(State& s, u64 a)
    {
        std::string r;
        for (int i = 0; i < 4096; ++i) { Val v = loadScalar(s, a + i, 8); if (v.k != CONC) inconclusive("symbolic C string"); if (!v.c) break; r += (char)v.c; }
        return r;
    }

    // ---------------- constants
    u64 gvAddr(const GlobalValue* g)
    {
        auto it = gid.find(g);
        if (it != gid.end()) return mkAddr(it->second);
        inconclusive("unregistered global");
    }
    Val constVal(const Constant* c)
    {
        Type* t = c->getType();
        if (isa<UndefValue>(c)) { if (bits(t)) return U(bits(t)); return undefOf(t); }
        if (auto* ci = dyn_cast<ConstantInt>(c)) {
            if (ci->getBitWidth() > 64) {
                Val r; r.k = CAT; r.w = ci->getBitWidth(); r.n = std::make_shared<Node>();
                for (unsigned i = 0; i < ci->getBitWidth(); i += 64) r.n->parts.push_back(C(ci->getValue().lshr(i).trunc(64).getZExtValue(), 64));
                return r;
            }
            return C(ci->getZExtValue(), ci->getBitWidth());
        }
        if (auto* cf = dyn_cast<ConstantFP>(c)) return C(cf->getValueAPF().bitcastToAPInt().getZExtValue(), bits(t));
        if (isa<ConstantPointerNull>(c)) return C(0, 64);
        if (auto* g = dyn_cast<GlobalAlias>(c)) return constVal(g->getAliasee());
        if (auto* g = dyn_cast<GlobalValue>(c)) return C(gvAddr(g), 64);
        if (isa<ConstantAggregateZero>(c)) return zeroOf(t);
        if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
            std::vector<Val> p; for (auto& o : ca->operands()) p.push_back(constVal(cast<Constant>(o.get()))); return mkAgg(p);
        }
        if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
            std::vector<Val> p; for (unsigned i = 0; i < cd->getNumElements(); ++i) p.push_back(constVal(cd->getElementAsConstant(i))); return mkAgg(p);
        }
        if (auto* ce = dyn_cast<ConstantExpr>(c)) {
            switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: {
                APInt off(64, 0); auto* g = cast<GEPOperator>(ce);
                if (!g->accumulateConstantOffset(*DL, off)) inconclusive("const gep");
                Val b = constVal(cast<Constant>(g->getPointerOperand()));
                return C(b.c + off.getSExtValue(), 64);
            }
            case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: {
                Val b = constVal(ce->getOperand(0)); return C(b.c, bits(t));
            }
            case Instruction::Sub: { Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); return C(a.c - b.c, a.w); }
            case Instruction::Add: { Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); return C(a.c + b.c, a.w); }
            case Instruction::Trunc: { Val a = constVal(ce->getOperand(0)); return C(a.c, bits(t)); }
            case Instruction::ICmp: {
                Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1));
                if (ce->getPredicate() == CmpInst::ICMP_EQ) return C(a.c == b.c, 1);
                if (ce->getPredicate() == CmpInst::ICMP_NE) return C(a.c != b.c, 1);
                inconclusive("const icmp");
            }
            default: inconclusive(std::string("constant expression ") + ce->getOpcodeName());
            }
        }
        inconclusive("constant kind");
    }
    Val zeroOf(Type* t)
    {
        if (unsigned w = bits(t)) { if (w <= 64) return C(0, w); }
        std::vector<Val> p;
        if (auto* st = dyn_cast<StructType>(t)) for (auto* e : st->elements()) p.push_back(zeroOf(e));
        else if (auto* at = dyn_cast<ArrayType>(t)) { Val z = zeroOf(at->getElementType()); p.assign(at->getNumElements(), z); }
        else if (auto* vt = dyn_cast<FixedVectorType>(t)) { Val z = zeroOf(vt->getElementType()); p.assign(vt->getNumElements(), z); }
        else inconclusive("zeroOf");
        return mkAgg(p);
    }
    Val undefOf(Type* t)
    {
        if (unsigned w = bits(t)) return U(w);
        std::vector<Val> p;
        if (auto* st = dyn_cast<StructType>(t)) for (auto* e : st->elements()) p.push_back(undefOf(e));
        else if (auto* at = dyn_cast<ArrayType>(t)) { Val z = undefOf(at->getElementType()); p.assign(at->getNumElements(), z); }
        else if (auto* vt = dyn_cast<FixedVectorType>(t)) { Val z = undefOf(vt->getElementType()); p.assign(vt->getNumElements(), z); }
        else inconclusive("undefOf");
        return mkAgg(p);
    }
    void initGlobals(State& s)
    {
        s.mem.push_back(nullptr);
        auto reg = [&](const GlobalValue* g, u64 id) { gid[g] = id; };
        for (auto& F : *M) { u64 id = newObj(s, 1, OFUNC, F.getName().str()); reg(&F, id); fnById[id] = &F; }
        for (auto& G : M->globals()) {
            u64 sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 0;
            bool ext = !G.hasInitializer();
            bool rtl = G.getName() == "__libc_single_threaded";
            u64 id = newObj(s, ext ? std::max<u64>(sz, 64) : sz, ext && !rtl ? OEXTERN : OGLOBAL, G.getName().str());
            if (rtl) { s.mem[id]->data[0] = 1; s.mem[id]->st[0] = 1; }
            reg(&G, id);
        }
        for (auto& G : M->globals()) if (G.hasInitializer()) {
            u64 id = gid[&G];
            initMem(*s.mem[id], 0, G.getInitializer(), G.getValueType());
            if (G.isConstant()) s.mem[id]->kind = OCONST;
        }
    }
    void initMem(Obj& o, u64 off, const Constant* c, Type* t)
    {
        if (isa<UndefValue>(c)) return;
        if (isa<ConstantAggregateZero>(c) || (isa<ConstantPointerNull>(c))) {
            u64 n = DL->getTypeAllocSize(t); for (u64 i = 0; i < n; ++i) { o.data[off + i] = 0; o.st[off + i] = 1; } return;
        }
        if (auto* st = dyn_cast<StructType>(t)) {
            auto* L = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); ++i) initMem(o, off + L->getElementOffset(i), c->getAggregateElement(i), st->getElementType(i));
            return;
        }
        if (auto* at = dyn_cast<ArrayType>(t)) {
            u64 sz = DL->getTypeAllocSize(at->getElementType());
            for (u64 i = 0; i < at->getNumElements(); ++i) initMem(o, off + i * sz, c->getAggregateElement(i), at->getElementType());
            return;
        }
        if (auto* vt = dyn_cast<FixedVectorType>(t)) {
            u64 sz = DL->getTypeAllocSize(vt->getElementType());
            for (u64 i = 0; i < vt->getNumElements(); ++i) initMem(o, off + i * sz, c->getAggregateElement(i), vt->getElementType());
            return;
        }
        if (bits(t) == 0) return; // exotic (x86_fp80 tables of the library): left uninitialised
        Val v = constVal(c); putCell(o, off, v);
    }

    // ---------------- decode
    FInfo* finfo(const Function* F)
    {
        auto& p = funcs[F];
        if (!p) { p = std::make_unique<FInfo>(); p->F = F; p->name = F->getName().str(); }
        if (!p->decoded && !F->isDeclaration()) decode(*p);
        return p.get();
    }
    void decode(FInfo& f)
    {
        f.decoded = true;
        std::unordered_map<const Value*, int> slot;
        for (auto& a : f.F->args()) slot[&a] = f.nslots++;
        for (auto& b : *f.F) { f.bbIdx[&b] = (int)f.bbIdx.size(); for (auto& i : b) if (!i.getType()->isVoidTy()) slot[&i] = f.nslots++; }
        auto opnd = [&](const Value* v) {
            Opnd o;
            auto it = slot.find(v);
            if (it != slot.end()) { o.slot = it->second; return o; }
            if (auto* c = dyn_cast<Constant>(v)) { o.c = constVal(c); return o; }
            return o; // metadata, bb, inline asm
        };
        for (auto& b : *f.F) {
            BBInfo bi; bi.bb = &b; bool phis = true;
            for (auto& i : b) {
                if (isa<DbgInfoIntrinsic>(i)) continue;
                Inst in; in.op = i.getOpcode(); in.I = &i; in.ty = i.getType(); in.w = bits(i.getType());
                if (!i.getType()->isVoidTy()) in.dst = slot[&i];
                if (isa<PHINode>(i)) {
                    auto& p = cast<PHINode>(i);
                    for (unsigned k = 0; k < p.getNumIncomingValues(); ++k) { in.o.push_back(opnd(p.getIncomingValue(k))); in.gep.push_back({f.bbIdx[p.getIncomingBlock(k)], 0}); }
                } else {
                    if (phis) { bi.firstNonPhi = (int)bi.in.size(); phis = false; }
                    if (auto* cb = dyn_cast<CallBase>(&i)) {
                        for (auto& a : cb->args()) in.o.push_back(isa<MetadataAsValue>(a.get()) ? Opnd() : opnd(a.get()));
                        if (auto* fn = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) in.callee = fn;
                        else if (auto* ga = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) in.callee = cast<Function>(ga->getAliaseeObject());
                        else if (!isa<InlineAsm>(cb->getCalledOperand())) in.o.push_back(opnd(cb->getCalledOperand()));
                        if (auto* iv = dyn_cast<InvokeInst>(&i)) { in.bb0 = f.bbIdx[iv->getNormalDest()]; in.bb1 = f.bbIdx[iv->getUnwindDest()]; }
                    } else if (auto* br = dyn_cast<BranchInst>(&i)) {
                        if (br->isConditional()) { in.o.push_back(opnd(br->getCondition())); in.bb0 = f.bbIdx[br->getSuccessor(0)]; in.bb1 = f.bbIdx[br->getSuccessor(1)]; }
                        else in.bb0 = f.bbIdx[br->getSuccessor(0)];
                    } else if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
                        in.o.push_back(opnd(g->getPointerOperand()));
                        if (g->getType()->isVectorTy()) inconclusive("vector gep");
                        for (auto gt = gep_type_begin(g), ge = gep_type_end(g); gt != ge; ++gt) {
                            const Value* ix = gt.getOperand();
                            if (auto* st = gt.getStructTypeOrNull()) { in.gepConst += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); }
                            else {
                                i64 sc = DL->getTypeAllocSize(gt.getIndexedType()).getFixedValue();
                                if (auto* ci = dyn_cast<ConstantInt>(ix)) in.gepConst += sc * ci->getSExtValue();
                                else { in.o.push_back(opnd(ix)); in.gep.push_back({(int)in.o.size() - 1, sc}); }
                            }
                        }
                    } else for (auto& op : i.operands()) in.o.push_back(opnd(op.get()));
                }
                bi.in.push_back(std::move(in));
            }
            f.bbs.push_back(std::move(bi));
        }
        noteDebug(*f.F);
    }
    void noteDebug(const Function& F)
    {
        auto add = [&](const DISubprogram* sp) {
            if (!sp) return;
            std::string fn = sp->getFilename().str(); if (!fn.empty() && fn[0] != '/') fn = sp->getDirectory().str() + "/" + fn;
            if (fn.compare(0, repo.size(), repo) == 0) {
                std::string nm = sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str());
                repoFns[nm] = fn.substr(repo.size()) + ":" + std::to_string(sp->getLine());
            }
        };
        add(F.getSubprogram());
        for (auto& b : F) for (auto& i : b) for (const DILocation* d = i.getDebugLoc(); d; d = d->getInlinedAt()) {
            if (auto* sc = d->getScope()) add(sc->getSubprogram());
        }
    }

    // ---------------- arithmetic
    /// e is 1 when c holds and 0 otherwise
    static bool isBit(const z3::expr& e, z3::expr& c)
    {
        u64 a, b; if (!e.is_app() || e.decl().decl_kind() != Z3_OP_ITE || !e.arg(1).is_numeral_u64(a) || !e.arg(2).is_numeral_u64(b) || a + b != 1 || a * b != 0) return false;
        c = a ? e.arg(0) : !e.arg(0); return true;
    }
    Val binop(State& s, unsigned op, const Val& a, const Val& b, unsigned w, const Instruction* I)
    {
        if (a.k == AGG || b.k == AGG) {
            std::vector<Val> p; auto* vt = cast<FixedVectorType>(I->getType()); unsigned ew = bits(vt->getElementType());
            for (size_t i = 0; i < a.parts().size(); ++i) p.push_back(binop(s, op, a.parts()[i], b.parts()[i], ew, I));
            return mkAgg(p);
        }
        if (op == Instruction::FAdd || op == Instruction::FSub || op == Instruction::FMul || op == Instruction::FDiv || op == Instruction::FRem) return fbin(op, a, b, w);
        if (w > 64) return wideop(op, a, b, w);
        if (a.k == UNDEF || b.k == UNDEF) {
            // x & 0 and x * 0 are defined
            if (op == Instruction::And && ((a.k == CONC && a.c == 0) || (b.k == CONC && b.c == 0))) return C(0, w);
            return U(w);
        }
        if (a.k == CONC && b.k == CONC) {
            u64 x = a.c, y = b.c; i64 sx = sext(x, w), sy = sext(y, w);
            switch (op) {
            case Instruction::Add: return C(x + y, w);
            case Instruction::Sub: return C(x - y, w);
            case Instruction::Mul: return C(x * y, w);
            case Instruction::UDiv: if (!y) violation(s, "ub", "division by zero"); return C(x / y, w);
            case Instruction::URem: if (!y) violation(s, "ub", "division by zero"); return C(x % y, w);
            case Instruction::SDiv: if (!y) violation(s, "ub", "division by zero"); if (sy == -1) return C(0 - x, w); return C((u64)(sx / sy), w);
            case Instruction::SRem: if (!y) violation(s, "ub", "division by zero"); if (sy == -1) return C(0, w); return C((u64)(sx % sy), w);
            case Instruction::And: return C(x & y, w);
            case Instruction::Or: return C(x | y, w);
            case Instruction::Xor: return C(x ^ y, w);
            case Instruction::Shl: return y >= w ? U(w) : C(x << y, w);
            case Instruction::LShr: return y >= w ? U(w) : C(x >> y, w);
            case Instruction::AShr: return y >= w ? U(w) : C((u64)(sx >> y), w);
            }
            inconclusive("binop");
        }
        if (w == 1) {
            z3::expr x = boolOf(a), y = boolOf(b);
            switch (op) {
            case Instruction::And: case Instruction::Mul: return mkBV((x && y).simplify(), 1);
            case Instruction::Or: return mkBV((x || y).simplify(), 1);
            case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return mkBV((x != y).simplify(), 1);
            }
            inconclusive("i1 op");
        }
        if ((a.k == CAT || b.k == CAT || a.k == FI || b.k == FI)) {
            if (a.k == CAT && b.k == CONC && op == Instruction::LShr && b.c % 8 == 0) return sliceCat(a, (unsigned)b.c, w);
            if (hasUndef(a) || hasUndef(b)) return U(w);
        }
        z3::expr x = bvOf(a), y = bvOf(b);
        auto R = [&](z3::expr e) { return mkBV(e.simplify(), w); };
        if (op == Instruction::Mul || op == Instruction::And || op == Instruction::Or || op == Instruction::Xor) { // keep truth values as conditions
            z3::expr p(Z()), q(Z()); bool bp = isBit(x, p), bq = isBit(y, q); z3::expr one = Z().bv_val(1, w), zero = Z().bv_val(0, w);
            if (bp && bq) return R(z3::ite(op == Instruction::Or ? p || q : op == Instruction::Xor ? p != q : p && q, one, zero));
            if (op == Instruction::Mul && (bp || bq)) return R(z3::ite(bp ? p : q, bp ? y : x, zero));
        }
        switch (op) {
        case Instruction::Add: if (b.k == CONC && b.c == 0) return a; if (a.k == CONC && a.c == 0) return b; return R(x + y);
        case Instruction::Sub: if (b.k == CONC && b.c == 0) return a; return R(x - y);
        case Instruction::Mul: if (b.k == CONC && b.c == 1) return a; return R(x * y);
        case Instruction::UDiv: divCheck(s, y, w); return R(z3::udiv(x, y));
        case Instruction::URem: divCheck(s, y, w); return R(z3::urem(x, y));
        case Instruction::SDiv: divCheck(s, y, w); return R(x / y);
        case Instruction::SRem: divCheck(s, y, w); return R(z3::srem(x, y));
        case Instruction::And: return R(x & y);
        case Instruction::Or: return R(x | y);
        case Instruction::Xor: return R(x ^ y);
        case Instruction::Shl: return R(z3::shl(x, y));
        case Instruction::LShr: return R(z3::lshr(x, y));
        case Instruction::AShr: return R(z3::ashr(x, y));
        }
        inconclusive("binop op");
    }
    Val wideop(unsigned op, const Val& a, const Val& b, unsigned w)
    {
        if (hasUndef(a) || hasUndef(b)) return U(w);
        // only concrete 128 bit
        auto get = [&](const Val& v, u128& o) { if (v.k == CONC) { o = v.c; return true; } if (v.k != CAT || v.parts().size() != 2) return false; for (auto& p : v.parts()) if (p.k != CONC) return false; o = ((u128)v.parts()[1].c << 64) | v.parts()[0].c; return true; };
        u128 x, y, r; if (w != 128 || !get(a, x) || !get(b, y)) inconclusive("wide integer operation");
        switch (op) {
        case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break;
        case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break;
        case Instruction::Shl: r = y >= 128 ? 0 : x << (unsigned)y; break; case Instruction::LShr: r = y >= 128 ? 0 : x >> (unsigned)y; break;
        case Instruction::UDiv: if (!y) inconclusive("wide div"); r = x / y; break; case Instruction::URem: if (!y) inconclusive("wide div"); r = x % y; break;
        default: inconclusive("wide op");
        }
        Val v; v.k = CAT; v.w = 128; v.n = std::make_shared<Node>(); v.n->parts = {C((u64)r, 64), C((u64)(r >> 64), 64)}; return v;
    }
    Val sliceCat(const Val& a, unsigned lowBit, unsigned w) // (a >> lowBit), result width w, zero filled
    {
        std::vector<Val> p; unsigned pos = 0;
        for (auto& x : a.parts()) {
            if (pos >= lowBit) p.push_back(x);
            else if (pos + x.w > lowBit) {
                unsigned d = lowBit - pos;
                if (x.k == CONC) p.push_back(C(x.c >> d, x.w - d)); else if (x.k == UNDEF) p.push_back(U(x.w - d));
                else if (x.k == FI) inconclusive("slice of exact float"); else p.push_back(mkBV(bvOf(x).extract(x.w - 1, d).simplify(), x.w - d));
            }
            pos += x.w;
        }
        unsigned have = 0; for (auto& x : p) have += x.w;
        if (have < w) p.push_back(C(0, w - have));
        return normCat(p, w);
    }
    Val normCat(std::vector<Val>& p, unsigned w)
    {
        if (p.size() == 1) return p[0];
        bool allC = true; for (auto& x : p) if (x.k != CONC) allC = false;
        if (allC && w <= 64) { u64 v = 0; unsigned pos = 0; for (auto& x : p) { v |= x.c << pos; pos += x.w; } return C(v, w); }
        Val r; r.k = CAT; r.w = w; r.n = std::make_shared<Node>(); r.n->parts = p; return r;
    }
    void divCheck(State& s, z3::expr y, unsigned w)
    {
        z3::expr z = (y == Z().bv_val(0, w)).simplify();
        std::shared_ptr<z3::model> m;
        if (feasible(s, z, &m)) {
            auto sv = s.model; s.model = m; std::string l = "division by zero";
            for (auto& f : stackOf(s)) if (f.find(repo) != std::string::npos) { l += " in " + f.substr(0, f.find(" @ ")); break; }
            record(s, "ub", l, m); s.model = sv; assume(s, !z);
        }
    }
    static i64 sext(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); return (i64)(((v & maskw(w)) ^ m) - m); }
    bool isFPk(const Val& v) { return v.k == FPV || (v.k == BV && v.w > 1); }
    Val fbin(unsigned op, const Val& a, const Val& b, unsigned w)
    {
        if (hasUndef(a) || hasUndef(b)) return U(w);
        if (a.k == CONC && b.k == CONC) {
            if (w == 32) {
                float x = (float)bitsToD(a.c, 32), y = (float)bitsToD(b.c, 32), r;
                switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = std::fmod(x, y); }
                return C(dToBits(r, 32), 32);
            }
            double x = bitsToD(a.c, 64), y = bitsToD(b.c, 64), r;
            switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = std::fmod(x, y); }
            return C(dToBits(r, 64), 64);
        }
        if (a.k == FI || b.k == FI) {
            if (op == Instruction::FMul && a.k == FI && b.k == FI && a.n->opaque && b.n->opaque && a.n->e.id() == b.n->e.id()) { auto it = rootArg.find(a.n->e.id()); if (it != rootArg.end()) return it->second.second; }
            FIv x, y; if (!toFI(a, x) || !toFI(b, y)) inconclusive("exact-integer float mixed with inf/nan or IEEE symbolic value");
            if (op == Instruction::FAdd || op == Instruction::FSub) {
                if (b.k == CONC && y.lo == 0) return a; if (a.k == CONC && x.lo == 0 && op == Instruction::FAdd) return b;
                align(x, y);
                if (op == Instruction::FAdd) return mkFI(x.e + y.e, w, x.lo + y.lo, x.hi + y.hi, x.scale, x.opaque || y.opaque);
                return mkFI(x.e - y.e, w, x.lo - y.hi, x.hi - y.lo, x.scale, x.opaque || y.opaque);
            }
            if (op == Instruction::FMul) {
                if (b.k == CONC && y.lo == 1 && y.scale == 0) return a; if (a.k == CONC && x.lo == 1 && x.scale == 0) return b;
                double c[4] = {x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi};
                return mkFI(x.e * y.e, w, *std::min_element(c, c + 4), *std::max_element(c, c + 4), x.scale + y.scale, x.opaque || y.opaque);
            }
            if (op == Instruction::FDiv && b.k == CONC) {
                double d = bitsToD(b.c, b.w); int ex; double m = std::frexp(d, &ex);
                if (std::fabs(m) == 0.5 && std::isfinite(d)) return mkFI(m > 0 ? x.e : -x.e, w, m > 0 ? x.lo : -x.hi, m > 0 ? x.hi : -x.lo, x.scale - (ex - 1), x.opaque);
            }
            if (op == Instruction::FDiv) { // uninterpreted: equal operands give equal results
                align(x, y);
                z3::sort I = Z().int_sort(); z3::func_decl f = Z().function(w == 32 ? "fdiv32" : "fdiv64", I, I, I);
                return mkFI(f(x.e, y.e), w, -1e300, 1e300, 0, true);
            }
            inconclusive("inexact floating-point operation in exact-integer mode");
        }
        z3::expr x = fpOf(a), y = fpOf(b);
        Z3_ast r = 0;
        switch (op) {
        case Instruction::FAdd: r = Z3_mk_fpa_add(Z(), RNE(), x, y); break;
        case Instruction::FSub: r = Z3_mk_fpa_sub(Z(), RNE(), x, y); break;
        case Instruction::FMul: r = Z3_mk_fpa_mul(Z(), RNE(), x, y); break;
        case Instruction::FDiv: r = Z3_mk_fpa_div(Z(), RNE(), x, y); break;
        default: inconclusive("frem");
        }
        return mkFP(wrapE(r), w);
    }
    Val fneg(const Val& a)
    {
        if (hasUndef(a)) return U(a.w);
        if (a.k == AGG) { std::vector<Val> p; for (auto& x : a.parts()) p.push_back(fneg(x)); return mkAgg(p); }
        if (a.k == CONC) return C(a.c ^ (1ull << (a.w - 1)), a.w);
        if (a.k == FI) return mkFIraw(-a.e(), a.w, -a.n->hi, -a.n->lo, a.n->scale, a.n->opaque);
        return mkFP(wrapE(Z3_mk_fpa_neg(Z(), fpOf(a))), a.w);
    }
    Val fabsv(const Val& a)
    {
        if (hasUndef(a)) return U(a.w);
        if (a.k == CONC) return C(a.c & ~(1ull << (a.w - 1)), a.w);
        if (a.k == FI) {
            if (a.n->lo >= 0) return a;
            double m = std::max(std::fabs(a.n->lo), std::fabs(a.n->hi));
            return mkFIraw(z3::ite(a.e() < 0, -a.e(), a.e()), a.w, 0, m, a.n->scale, a.n->opaque);
        }
        return mkFP(wrapE(Z3_mk_fpa_abs(Z(), fpOf(a))), a.w);
    }
    std::map<unsigned, std::pair<z3::expr, Val>> rootArg; // roots are ideal: their squares are their arguments
    // exponent of frexp (every possible one is explored separately) and the fraction
    int frexpv(State& s, const Val& a, Val& fr)
    {
        if (hasUndef(a)) violation(s, "uninit", "frexp of an uninitialised value");
        if (a.k == CONC) { int e; double m = std::frexp(bitsToD(a.c, a.w), &e); fr = C(dToBits(m, a.w), a.w); return e; }
        if (a.k != FI || a.n->opaque) inconclusive("frexp of an IEEE symbolic value");
        Val m = fabsv(a), e = C(0, 32); double hi = std::ldexp(std::max(std::fabs(a.n->lo), std::fabs(a.n->hi)), a.n->scale);
        for (int j = a.n->scale + 1; std::ldexp(1.0, j - 1) <= hi; ++j) {
            Val c = fcmp(CmpInst::FCMP_OGE, m, C(dToBits(std::ldexp(1.0, j - 1), a.w), a.w)), r;
            if (c.k == CONC) { if (c.c) e = C((u64)(i64)j & 0xffffffffull, 32); continue; }
            if (!merge(boolOf(c), C((u64)(i64)j & 0xffffffffull, 32), e, r)) inconclusive("frexp"); e = r;
        }
        int j = (int)(int32_t)cv(s, e); fr = mkFIraw(a.e(), a.w, a.n->lo, a.n->hi, a.n->scale - j, false); return j;
    }
    Val fsqrt(State& s, const Val& a)
    {
        if (hasUndef(a)) return U(a.w);
        if (a.k == CONC) return a.w == 32 ? C(dToBits(std::sqrt((float)bitsToD(a.c, 32)), 32), 32) : C(dToBits(std::sqrt(bitsToD(a.c, 64)), 64), 64);
        if (a.k == FI) {
            // uninterpreted but monotone-free: equal arguments give equal results; argument normalised to an even scale
            FIv x; toFI(a, x); if (x.scale % 2) { x.e = x.e * 2; x.scale -= 1; }
            z3::sort I = Z().int_sort(); z3::func_decl f = Z().function(("sqrt" + std::to_string(a.w)).c_str(), I, I);
            z3::expr y = f(x.e); rootArg.emplace(y.id(), std::make_pair(y, a)); bool known = false; for (auto& r : s.roots) known = known || r.second.id() == y.id(); if (!known) s.roots.emplace_back(x.e, y);
            return mkFI(y, a.w, -1e300, 1e300, x.scale / 2, true);
        }
        return mkFP(wrapE(Z3_mk_fpa_sqrt(Z(), RNE(), fpOf(a))), a.w);
    }
    Val fcmp(unsigned pred, const Val& a, const Val& b)
    {
        typedef CmpInst P;
        if (pred == P::FCMP_FALSE) return C(0, 1); if (pred == P::FCMP_TRUE) return C(1, 1);
        if (hasUndef(a) || hasUndef(b)) return U(1);
        if (a.k == CONC && b.k == CONC) {
            double x = bitsToD(a.c, a.w), y = bitsToD(b.c, b.w); bool un = std::isnan(x) || std::isnan(y), r = false;
            switch (pred) {
            case P::FCMP_OEQ: r = !un && x == y; break; case P::FCMP_OGT: r = !un && x > y; break; case P::FCMP_OGE: r = !un && x >= y; break;
            case P::FCMP_OLT: r = !un && x < y; break; case P::FCMP_OLE: r = !un && x <= y; break; case P::FCMP_ONE: r = !un && x != y; break;
            case P::FCMP_ORD: r = !un; break; case P::FCMP_UNO: r = un; break;
            case P::FCMP_UEQ: r = un || x == y; break; case P::FCMP_UGT: r = un || x > y; break; case P::FCMP_UGE: r = un || x >= y; break;
            case P::FCMP_ULT: r = un || x < y; break; case P::FCMP_ULE: r = un || x <= y; break; case P::FCMP_UNE: r = un || x != y; break;
            }
            return C(r, 1);
        }
        if (a.k == FI || b.k == FI) {
            if (pred == P::FCMP_ORD || pred == P::FCMP_UNO) {
                const Val& o = a.k == FI ? b : a; bool nan = o.k == CONC && std::isnan(bitsToD(o.c, o.w));
                return C((pred == P::FCMP_ORD) != nan, 1);
            }
            // concrete other side: inf / nan / huge / tiny
            const Val& o = a.k == CONC ? a : b;
            if (o.k == CONC) {
                double d = bitsToD(o.c, o.w);
                if (std::isnan(d)) return C(pred >= P::FCMP_UNO, 1);
                const Val& f = a.k == CONC ? b : a;
                if (!f.n->opaque) {
                    double flo = std::ldexp(f.n->lo, f.n->scale), fhi = std::ldexp(f.n->hi, f.n->scale);
                    // compare f ? d, via exact rational rounding
                    unsigned pr = pred & 7; bool swap = (a.k == CONC); // a ? b
                    // normalise to f ? d
                    bool gt = pr & 2, lt = pr & 4, eq = pr & 1; if (swap) std::swap(gt, lt);
                    if (flo > d) return C(gt, 1);
                    if (fhi < d) return C(lt, 1);
                    // scaled d
                    double sd = std::ldexp(d, -f.n->scale); // exact unless under/overflow
                    double fl = std::floor(sd); bool integral = fl == sd;
                    z3::expr K = intNum(fl), e = f.e(); z3::expr r = Z().bool_val(false);
                    if (integral) r = lt && gt ? (eq ? Z().bool_val(true) : e != K) : lt ? (eq ? e <= K : e < K) : gt ? (eq ? e >= K : e > K) : eq ? e == K : r;
                    else { if (lt) r = r || (e <= K); if (gt) r = r || (e > K); }
                    return mkBV(r.simplify(), 1);
                }
            }
            FIv x, y; if (!toFI(a, x) || !toFI(b, y)) inconclusive("fcmp: exact-integer float against IEEE symbolic value");
            align(x, y);
            unsigned pr = pred & 7; z3::expr r = Z().bool_val(false);
            switch (pr) { case 1: r = x.e == y.e; break; case 2: r = x.e > y.e; break; case 3: r = x.e >= y.e; break; case 4: r = x.e < y.e; break; case 5: r = x.e <= y.e; break; case 6: r = x.e != y.e; break; }
            return mkBV(r.simplify(), 1);
        }
        z3::expr x = fpOf(a), y = fpOf(b);
        z3::expr un = wrapE(Z3_mk_fpa_is_nan(Z(), x)) || wrapE(Z3_mk_fpa_is_nan(Z(), y));
        z3::expr eq = wrapE(Z3_mk_fpa_eq(Z(), x, y)), lt = wrapE(Z3_mk_fpa_lt(Z(), x, y)), gt = wrapE(Z3_mk_fpa_gt(Z(), x, y)), le = wrapE(Z3_mk_fpa_leq(Z(), x, y)), ge = wrapE(Z3_mk_fpa_geq(Z(), x, y));
        z3::expr r(Z());
        switch (pred & 7) { case 1: r = eq; break; case 2: r = gt; break; case 3: r = ge; break; case 4: r = lt; break; case 5: r = le; break; case 6: r = !un && !eq; break; case 7: r = !un; break; case 0: r = un; break; }
        if (pred >= P::FCMP_UNO && (pred & 7) != 0) r = r || un;
        return mkBV(r.simplify(), 1);
    }
    Val icmp(State& s, unsigned pred, Val a, Val b, const Instruction* I)
    {
        typedef CmpInst P;
        if (a.k == AGG) {
            std::vector<Val> p; for (size_t i = 0; i < a.parts().size(); ++i) p.push_back(icmp(s, pred, a.parts()[i], b.parts()[i], I)); return mkAgg(p);
        }
        if (hasUndef(a) || hasUndef(b)) return U(1);
        if (a.k == CONC && b.k == CONC) {
            u64 x = a.c, y = b.c; i64 sx = sext(x, a.w), sy = sext(y, a.w); bool r = false;
            switch (pred) {
            case P::ICMP_EQ: r = x == y; break; case P::ICMP_NE: r = x != y; break; case P::ICMP_UGT: r = x > y; break; case P::ICMP_UGE: r = x >= y; break;
            case P::ICMP_ULT: r = x < y; break; case P::ICMP_ULE: r = x <= y; break; case P::ICMP_SGT: r = sx > sy; break; case P::ICMP_SGE: r = sx >= sy; break;
            case P::ICMP_SLT: r = sx < sy; break; case P::ICMP_SLE: r = sx <= sy; break;
            }
            return C(r, 1);
        }
        if ((a.k == FI || b.k == FI) && (pred == P::ICMP_EQ || pred == P::ICMP_NE)) {
            FIv x, y; if (toFI(a, x) && toFI(b, y)) { align(x, y); z3::expr r = x.e == y.e; if (pred == P::ICMP_NE) r = !r; return mkBV(r.simplify(), 1); }
        }
        if ((a.k == CAT || b.k == CAT) && (pred == P::ICMP_EQ || pred == P::ICMP_NE) && a.w <= 64) {
            // partwise when shapes agree
            if (a.k == CAT && b.k == CAT && a.parts().size() == b.parts().size()) {
                bool same = true; for (size_t i = 0; i < a.parts().size(); ++i) if (a.parts()[i].w != b.parts()[i].w) same = false;
                if (same) { z3::expr r = Z().bool_val(true); for (size_t i = 0; i < a.parts().size(); ++i) r = r && boolOf(icmp(s, P::ICMP_EQ, a.parts()[i], b.parts()[i], I)); if (pred == P::ICMP_NE) r = !r; return mkBV(r.simplify(), 1); }
            }
        }
        if (a.w == 1) {
            z3::expr x = boolOf(a), y = boolOf(b);
            switch (pred) { case P::ICMP_EQ: return mkBV((x == y).simplify(), 1); case P::ICMP_NE: return mkBV((x != y).simplify(), 1);
            case P::ICMP_ULT: case P::ICMP_SGT: return mkBV((!x && y).simplify(), 1); case P::ICMP_UGT: case P::ICMP_SLT: return mkBV((x && !y).simplify(), 1);
            case P::ICMP_ULE: case P::ICMP_SGE: return mkBV((!x || y).simplify(), 1); default: return mkBV((x || !y).simplify(), 1); }
        }
        z3::expr x = bvOf(a), y = bvOf(b), r(Z());
        switch (pred) {
        case P::ICMP_EQ: r = x == y; break; case P::ICMP_NE: r = x != y; break; case P::ICMP_UGT: r = z3::ugt(x, y); break; case P::ICMP_UGE: r = z3::uge(x, y); break;
        case P::ICMP_ULT: r = z3::ult(x, y); break; case P::ICMP_ULE: r = z3::ule(x, y); break; case P::ICMP_SGT: r = x > y; break; case P::ICMP_SGE: r = x >= y; break;
        case P::ICMP_SLT: r = x < y; break; case P::ICMP_SLE: r = x <= y; break;
        }
        return mkBV(r.simplify(), 1);
    }
    // ite over two values of equal type; returns false if not mergeable
    bool merge(const z3::expr& c, const Val& a, const Val& b, Val& out)
    {
        if (a.k == AGG || b.k == AGG) {
            if (a.k != AGG || b.k != AGG) return false;
            std::vector<Val> p(a.parts().size()); for (size_t i = 0; i < p.size(); ++i) if (!merge(c, a.parts()[i], b.parts()[i], p[i])) return false;
            out = mkAgg(p); return true;
        }
        if (a.k == UNDEF && b.k == UNDEF) { out = a; return true; }
        if (hasUndef(a) || hasUndef(b) || a.k == CAT || b.k == CAT) return false;
        if (a.k == CONC && b.k == CONC && a.c == b.c) { out = a; return true; }
        if (a.k == FI || b.k == FI) {
            FIv x, y; if (!toFI(a, x) || !toFI(b, y)) return false;
            align(x, y); out = mkFIraw(z3::ite(c, x.e, y.e), a.w, std::min(x.lo, y.lo), std::max(x.hi, y.hi), x.scale, x.opaque || y.opaque); return true;
        }
        if (a.k == FPV || b.k == FPV) { out = mkFP(z3::ite(c, fpOf(a), fpOf(b)), a.w); return true; }
        if (a.w == 1) { out = mkBV(z3::ite(c, boolOf(a), boolOf(b)).simplify(), 1); return true; }
        out = mkBV(z3::ite(c, bvOf(a), bvOf(b)).simplify(), a.w); return true;
    }
    Val castv(State& s, unsigned op, const Val& a, unsigned w, const Instruction* I)
    {
        if (a.k == AGG) {
            if (op == Instruction::BitCast) inconclusive("vector bitcast");
            std::vector<Val> p; unsigned ew = bits(cast<FixedVectorType>(I->getType())->getElementType()); for (auto& x : a.parts()) p.push_back(castv(s, op, x, ew, I)); return mkAgg(p);
        }
        switch (op) {
        case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast:
            if (a.w == w) return a;
            if (op == Instruction::PtrToInt) return castv(s, Instruction::Trunc, a, w, I);
            return castv(s, Instruction::ZExt, a, w, I);
        }
        if (a.k == UNDEF) return U(w);
        switch (op) {
        case Instruction::Trunc:
            if (a.k == CONC) return C(a.c, w);
            if (a.k == CAT) {
                if (w % 8 == 0) {
                    std::vector<Val> p; unsigned have = 0;
                    for (auto& x : a.parts()) {
                        if (have >= w) break;
                        if (have + x.w <= w) { p.push_back(x); have += x.w; }
                        else { unsigned n = w - have; if (x.k == CONC) p.push_back(C(x.c, n)); else if (x.k == UNDEF) p.push_back(U(n)); else if (x.k == FI) inconclusive("trunc of exact float"); else p.push_back(mkBV(bvOf(x).extract(n - 1, 0).simplify(), n)); have = w; }
                    }
                    return normCat(p, w);
                }
                if (hasUndef(a)) return U(w);
            }
            { z3::expr e = bvOf(a); if (w == 1) return mkBV((e.extract(0, 0) == Z().bv_val(1, 1)).simplify(), 1); return mkBV(e.extract(w - 1, 0).simplify(), w); }
        case Instruction::ZExt:
            if (w > 64) { Val r; r.k = CAT; r.w = w; r.n = std::make_shared<Node>(); r.n->parts = {a.w == 64 ? a : castv(s, Instruction::ZExt, a, 64, I), C(0, w - 64)}; return r; }
            if (a.k == CONC) return C(a.c, w);
            if (a.w == 1) return mkBV(z3::ite(boolOf(a), Z().bv_val(1, w), Z().bv_val(0, w)), w);
            if (a.k == CAT || a.k == FI) { std::vector<Val> p; if (a.k == CAT) p = a.parts(); else p = {a}; p.push_back(C(0, w - a.w)); return normCat(p, w); }
            return mkBV(z3::zext(bvOf(a), w - a.w).simplify(), w);
        case Instruction::SExt:
            if (a.k == CONC) return C((u64)sext(a.c, a.w), w);
            if (a.w == 1) return mkBV(z3::ite(boolOf(a), Z().bv_val(maskw(w), w), Z().bv_val(0, w)), w);
            if (hasUndef(a)) return U(w);
            return mkBV(z3::sext(bvOf(a), w - a.w).simplify(), w);
        case Instruction::FPTrunc: case Instruction::FPExt:
            if (a.k == CONC) return C(dToBits(bitsToD(a.c, a.w), w), w);
            if (a.k == FI) return w < a.w ? mkFI(a.e(), w, a.n->lo, a.n->hi, a.n->scale, a.n->opaque) : mkFIraw(a.e(), w, a.n->lo, a.n->hi, a.n->scale, a.n->opaque);
            return mkFP(wrapE(Z3_mk_fpa_to_fp_float(Z(), RNE(), fpOf(a), fpSort(w))), w);
        case Instruction::SIToFP: case Instruction::UIToFP:
            if (a.k == CONC) { double d = op == Instruction::SIToFP ? (double)sext(a.c, a.w) : (double)a.c; if (w == 32) { float f = op == Instruction::SIToFP ? (float)sext(a.c, a.w) : (float)a.c; return C(dToBits(f, 32), 32); } return C(dToBits(d, w), w); }
            if (hasUndef(a)) return U(w);
            if (fpMode) return mkFP(wrapE(op == Instruction::SIToFP ? Z3_mk_fpa_to_fp_signed(Z(), RNE(), bvOf(a), fpSort(w)) : Z3_mk_fpa_to_fp_unsigned(Z(), RNE(), bvOf(a), fpSort(w))), w);
            if (a.w <= 32) { bool sg = op == Instruction::SIToFP; double m = std::ldexp(1.0, sg ? a.w - 1 : a.w); Val av = a.w == 1 ? castv(s, Instruction::ZExt, a, 8, I) : a; return mkFI(z3::bv2int(bvOf(av), sg), w, sg ? -m : 0, m, 0); }
            { u64 v = concretize(s, a, 300); return castv(s, op, C(v, a.w), w, I); }
        case Instruction::FPToSI: case Instruction::FPToUI:
            if (a.k == CONC) { double d = std::trunc(bitsToD(a.c, a.w)); if (!(d > -9.3e18 && d < 1.9e19)) return U(w); return C(op == Instruction::FPToSI ? (u64)(i64)d : (u64)d, w); }
            if (a.k == FI && std::abs(a.n->scale) <= 40 && !a.n->opaque) { // toward zero
                z3::expr x = a.e(), q = intNum(std::ldexp(1.0, std::abs(a.n->scale)));
                if (a.n->scale > 0) x = x * q; else if (a.n->scale < 0) x = z3::ite(x >= 0, wrapE(Z3_mk_div(Z(), x, q)), -wrapE(Z3_mk_div(Z(), -x, q)));
                z3::expr e = wrapE(Z3_mk_int2bv(Z(), w, x)); return mkBV(e, w);
            }
            inconclusive("fptosi of symbolic value");
        }
        inconclusive("cast");
    }

    // ---------------- exceptions
    bool tiDerives(State& s, u64 from, u64 to)
    {
        if (from == to) return true;
        u64 id = from >> 32; const GlobalVariable* g = nullptr;
        for (auto& p : gid) if (p.second == id) { g = dyn_cast<GlobalVariable>(p.first); break; }
        if (!g || !g->hasInitializer()) return false;
        auto* st = dyn_cast<ConstantStruct>(g->getInitializer()); if (!st) return false;
        auto base = [&](const Constant* c) { c = cast<Constant>(c->stripPointerCasts()); if (auto* gv = dyn_cast<GlobalValue>(c)) return tiDerives(s, gvAddr(gv), to); return false; };
        if (st->getNumOperands() == 3) return base(cast<Constant>(st->getOperand(2)));
        if (st->getNumOperands() > 4) for (unsigned i = 4; i + 1 < st->getNumOperands(); i += 2) if (base(cast<Constant>(st->getOperand(i)))) return true;
        return false;
    }
    int tiId(u64 a) { auto k = std::to_string(a); auto it = tiIds.find(k); if (it != tiIds.end()) return it->second; int n = (int)tiIds.size() + 1; return tiIds[k] = n; }
    ExcRec* excOf(State& s, u64 a) { for (auto& e : s.excs) if (e.obj == a) return &e; return nullptr; }
    std::string tiName(State& s, u64 ti) { u64 id = ti >> 32; for (auto& p : gid) if (p.second == id) return demangle(p.first->getName().str()); return "?"; }
    void popFrame(State& s) { for (u64 a : s.fr.back().allocas) { s.mem[a] = deadStack; s.freeIds.push_back(a); } s.fr.pop_back(); }
    ObjP deadStack = [] { auto o = std::make_shared<Obj>(); o->kind = OSTACK; o->alive = false; return o; }();
    // the current instruction of the top frame throws exception object `exc`
    void unwind(State& s, u64 exc)
    {
        ExcRec* er = excOf(s, exc); u64 ti = er ? er->tinfo : 0;
        std::string at; for (auto& x : stackOf(s)) if (x.find(repo) != std::string::npos) { at = " from " + x.substr(0, x.find(" @ ")); break; }
        // top frame: the throwing call may itself be an invoke
        auto tryPad = [&](Frame& f, int ub) {
            auto& b = f.f->bbs[ub];
            for (auto& in : b.in) if (in.op == Instruction::LandingPad) {
                auto* lp = cast<LandingPadInst>(in.I); int sel = 0; bool take = lp->isCleanup();
                for (unsigned i = 0; i < lp->getNumClauses(); ++i) if (lp->isCatch(i)) {
                    Constant* c = lp->getClause(i); Val cv = constVal(c);
                    if (cv.c == 0 || tiDerives(s, ti, cv.c)) { sel = cv.c == 0 ? 0x7fff : tiId(cv.c); take = true; break; }
                } else { take = true; sel = -1; break; }
                if (!take) return false;
                f.prev = f.bb; f.bb = ub; f.ip = 0;
                padVal = mkAgg({C(exc, 64), C((u64)sel, 32)});
                f.regs[in.dst] = padVal;
                return true;
            }
            return false;
        };
        // is there any handler at all? (otherwise terminate before unwinding)
        Frame* top = &s.fr.back();
        Inst& ti_ = top->f->bbs[top->bb].in[top->ip];
        if (ti_.op == Instruction::Invoke) { if (tryPad(*top, ti_.bb1)) return; }
        for (;;) {
            int ub = s.fr.back().unwindBB; 
            if (s.fr.size() == 1) violation(s, "exception", "uncaught exception " + tiName(s, ti) + at);
            popFrame(s);
            if (ub >= 0 && tryPad(s.fr.back(), ub)) return;
        }
    }
    Val padVal;

    // ---------------- calls
    void pushCall(State& s, FInfo* cf, const std::vector<Val>& args, Inst* site, bool dtor = false)
    {
        Frame nf; nf.f = cf; nf.regs.resize(cf->nslots);
        if (s.fr.size() > 4000) violation(s, "ub", "unbounded recursion");
        unsigned n = cf->F->arg_size();
        for (unsigned i = 0; i < n && i < args.size(); ++i) {
            nf.regs[i] = args[i];
            if (cf->F->hasParamAttribute(i, Attribute::ByVal)) {
                Type* t = cf->F->getParamByValType(i); u64 sz = DL->getTypeAllocSize(t);
                u64 a = alloc(s, sz, OSTACK, 0, "byval"); memCopy(s, a, args[i].c, sz); nf.regs[i] = C(a, 64); nf.allocas.push_back(a >> 32);
            }
        }
        if (site) { nf.retSlot = dtor ? -1 : site->dst; if (site->op == Instruction::Invoke) { nf.normalBB = site->bb0; nf.unwindBB = site->bb1; } }
        nf.isDtorCall = dtor;
        ++cf->calls;
        if (site && site->op != Instruction::Invoke) s.fr.back().ip++; // ordinary call: resume after
        s.fr.push_back(std::move(nf));
    }
    void doCall(State& s, Inst& in)
    {
        Frame& f = s.fr.back();
        const Function* callee = in.callee;
        std::vector<Val> args; size_t na = cast<CallBase>(in.I)->arg_size();
        args.reserve(na);
        for (size_t i = 0; i < na; ++i) args.push_back(in.o[i].slot >= 0 ? f.regs[in.o[i].slot] : in.o[i].c);
        if (!callee) {
            if (cast<CallBase>(in.I)->isInlineAsm()) { // optimisation barriers only
                inconclusive("inline asm");
            }
            Val fp = in.o[na].slot >= 0 ? f.regs[in.o[na].slot] : in.o[na].c;
            if (hasUndef(fp)) violation(s, "uninit", "call through an uninitialised pointer");
            u64 a = concretize(s, fp);
            auto it = fnById.find(a >> 32);
            if (it == fnById.end() || (a & 0xffffffffull) != BASE) violation(s, "memory", "call through a bad function pointer");
            callee = it->second;
        }
        if (callee->getName().starts_with("sv_") || callee->isDeclaration() || builtinOverride.count(callee->getName().str())) { builtin(s, in, callee, args); return; }
        if (!in.cf || in.cf->F != callee) { FInfo* x = finfo(callee); if (in.callee) in.cf = x; pushCall(s, x, args, &in); return; }
        pushCall(s, in.cf, args, &in);
    }
    std::set<std::string> builtinOverride;
    void ret(State& s, Inst& in, const Val& v) // builtin returns
    {
        Frame& f = s.fr.back();
        if (in.dst >= 0) f.regs[in.dst] = v;
        if (in.op == Instruction::Invoke) enter(f, in.bb0); else f.ip++;
    }
    void enter(Frame& f, int bb)
    {
        int prev = f.bb; auto& b = f.f->bbs[bb];
        if (b.firstNonPhi > 0) {
            Val tmp[64]; std::vector<Val> big; int n = b.firstNonPhi; Val* t = tmp; if (n > 64) { big.resize(n); t = big.data(); }
            for (int i = 0; i < n; ++i) {
                Inst& p = b.in[i];
                for (size_t k = 0; k < p.o.size(); ++k) if (p.gep[k].first == prev) { t[i] = p.o[k].slot >= 0 ? f.regs[p.o[k].slot] : p.o[k].c; break; }
            }
            for (int i = 0; i < n; ++i) f.regs[b.in[i].dst] = t[i];
        }
        f.prev = prev; f.bb = bb; f.ip = b.firstNonPhi;
    }
    #include "builtins.inc"

    // ---------------- step loop
    inline const Val& G(Frame& f, const Opnd& o) { return o.slot >= 0 ? f.regs[o.slot] : o.c; }
    void step(State& s)
    {
        Frame& f = s.fr.back();
        Inst& in = f.f->bbs[f.bb].in[f.ip];
        ++instrs; in.seen = true;
        switch (in.op) {
        case Instruction::Alloca: {
            auto* ai = cast<AllocaInst>(in.I); u64 n = 1; Val c = G(f, in.o[0]); n = concretize(s, c);
            u64 a = alloc(s, n * DL->getTypeAllocSize(ai->getAllocatedType()), OSTACK, 0, "");
            s.fr.back().allocas.push_back(a >> 32); s.fr.back().regs[in.dst] = C(a, 64); s.fr.back().ip++; return;
        }
        case Instruction::Load: {
            const Val& p = G(f, in.o[0]); u64 a = p.k == CONC ? p.c : concretize(s, p);
            Val v = load(s, a, in.ty); Frame& g = s.fr.back(); g.regs[in.dst] = std::move(v); g.ip++; return;
        }
        case Instruction::Store: {
            const Val& p = G(f, in.o[1]); u64 a = p.k == CONC ? p.c : concretize(s, p);
            store(s, a, G(f, in.o[0]), in.I->getOperand(0)->getType()); f.ip++; return;
        }
        case Instruction::GetElementPtr: {
            const Val& b = G(f, in.o[0]);
            bool conc = b.k == CONC; u64 a = b.c + (u64)in.gepConst;
            if (conc) for (auto& g : in.gep) { const Val& x = G(f, in.o[g.first]); if (x.k != CONC) { conc = false; break; } a += (u64)(sext(x.c, x.w) * g.second); }
            if (conc) f.regs[in.dst] = C(a, 64);
            else {
                bool und = hasUndef(b); for (auto& g : in.gep) if (hasUndef(G(f, in.o[g.first]))) und = true;
                if (und) f.regs[in.dst] = U(64);
                else {
                    z3::expr e = bvOf(b) + Z().bv_val((uint64_t)in.gepConst, 64);
                    for (auto& g : in.gep) { Val x = G(f, in.o[g.first]); if (x.w < 64) x = castv(s, Instruction::SExt, x, 64, in.I); e = e + bvOf(x) * Z().bv_val((uint64_t)g.second, 64); }
                    f.regs[in.dst] = mkBV(e.simplify(), 64);
                }
            }
            f.ip++; return;
        }
        case Instruction::Br: {
            if (in.bb1 < 0) { enter(f, in.bb0); return; }
            const Val& c = G(f, in.o[0]);
            if (c.k == CONC) { enter(f, c.c & 1 ? in.bb0 : in.bb1); return; }
            if (c.k == UNDEF) violation(s, "uninit", "branch on an uninitialised value");
            int b0 = in.bb0, b1 = in.bb1;
            bool t = decide(s, boolOf(c), [&](State& o, bool) { enter(o.fr.back(), b1); });
            enter(s.fr.back(), t ? b0 : b1); return;
        }
        case Instruction::Switch: {
            auto* sw = cast<SwitchInst>(in.I); Val c = G(f, in.o[0]);
            if (hasUndef(c)) violation(s, "uninit", "switch on an uninitialised value");
            u64 v;
            if (c.k == CONC) v = c.c;
            else {
                // fork over the cases
                for (auto cs : sw->cases()) {
                    u64 cv = cs.getCaseValue()->getZExtValue(); int tb = f.f->bbIdx[cs.getCaseSuccessor()];
                    StateP keepAlive; bool taken = false;
                    z3::expr eq = (bvOf(c) == Z().bv_val((uint64_t)cv, c.w)).simplify();
                    if (eq.is_true()) { enter(s.fr.back(), tb); return; }
                    if (eq.is_false()) continue;
                    std::shared_ptr<z3::model> m; if (feasible(s, eq, &m)) {
                        StateP o = clone(s); addPC(*o, eq); o->model = m; enter(o->fr.back(), tb); work.push_back(o); taken = true;
                    }
                    if (taken) assume(s, !eq);
                }
                enter(s.fr.back(), s.fr.back().f->bbIdx[sw->getDefaultDest()]); return;
            }
            const BasicBlock* d = sw->getDefaultDest(); for (auto cs : sw->cases()) if (cs.getCaseValue()->getZExtValue() == v) { d = cs.getCaseSuccessor(); break; }
            enter(f, f.f->bbIdx[d]); return;
        }
        case Instruction::Ret: {
            Val v; bool has = !in.o.empty(); if (has) v = G(f, in.o[0]);
            int rs = f.retSlot, nb = f.normalBB; 
            popFrame(s);
            if (s.fr.empty()) { throw PathEnd{}; }
            Frame& c = s.fr.back();
            if (rs >= 0 && has) c.regs[rs] = v;
            if (nb >= 0) enter(c, nb);
            return;
        }
        case Instruction::Call: case Instruction::Invoke: doCall(s, in); return;
        case Instruction::LandingPad: f.ip++; return; // value already placed
        case Instruction::Resume: { u64 e = G(f, in.o[0]).parts()[0].c; unwind(s, e); return; }
        case Instruction::Unreachable: violation(s, "ub", "unreachable code reached (undefined behaviour)");
        case Instruction::ICmp: f.regs[in.dst] = icmp(s, cast<CmpInst>(in.I)->getPredicate(), G(f, in.o[0]), G(f, in.o[1]), in.I); f.ip++; return;
        case Instruction::FCmp: {
            Val a = G(f, in.o[0]), b = G(f, in.o[1]);
            if (a.k == AGG) { std::vector<Val> p; for (size_t i = 0; i < a.parts().size(); ++i) p.push_back(fcmp(cast<CmpInst>(in.I)->getPredicate(), a.parts()[i], b.parts()[i])); f.regs[in.dst] = mkAgg(p); }
            else f.regs[in.dst] = fcmp(cast<CmpInst>(in.I)->getPredicate(), a, b);
            f.ip++; return;
        }
        case Instruction::Select: {
            Val c = G(f, in.o[0]);
            if (c.k == CONC) { f.regs[in.dst] = G(f, in.o[c.c & 1 ? 1 : 2]); f.ip++; return; }
            if (c.k == UNDEF) { f.regs[in.dst] = undefOf(in.ty); f.ip++; return; }
            if (c.k == AGG) inconclusive("vector select");
            Val r; if (merge(boolOf(c), G(f, in.o[1]), G(f, in.o[2]), r)) { f.regs[in.dst] = r; f.ip++; return; }
            int dst = in.dst; Opnd o1 = in.o[1], o2 = in.o[2];
            bool t = decide(s, boolOf(c), [&](State& o, bool) { Frame& g = o.fr.back(); g.regs[dst] = o2.slot >= 0 ? g.regs[o2.slot] : o2.c; g.ip++; });
            Frame& g = s.fr.back(); Val v = t ? G(g, o1) : G(g, o2); g.regs[dst] = v; g.ip++; return;
        }
        case Instruction::FNeg: f.regs[in.dst] = fneg(G(f, in.o[0])); f.ip++; return;
        case Instruction::Freeze: f.regs[in.dst] = G(f, in.o[0]); f.ip++; return;
        case Instruction::ExtractValue: {
            Val v = G(f, in.o[0]); for (unsigned i : cast<ExtractValueInst>(in.I)->indices()) { Val x = v.parts()[i]; v = x; } f.regs[in.dst] = v; f.ip++; return;
        }
        case Instruction::InsertValue: {
            std::function<Val(const Val&, ArrayRef<unsigned>, const Val&)> ins = [&](const Val& a, ArrayRef<unsigned> ix, const Val& x) -> Val {
                if (ix.empty()) return x; std::vector<Val> p = a.parts(); p[ix[0]] = ins(p[ix[0]], ix.drop_front(), x); return mkAgg(p);
            };
            f.regs[in.dst] = ins(G(f, in.o[0]), cast<InsertValueInst>(in.I)->getIndices(), G(f, in.o[1])); f.ip++; return;
        }
        case Instruction::ExtractElement: { u64 i = concretize(s, G(f, in.o[1])); Val a = G(f, in.o[0]); f.regs[in.dst] = a.parts()[i]; f.ip++; return; }
        case Instruction::InsertElement: { u64 i = concretize(s, G(f, in.o[2])); std::vector<Val> p = G(f, in.o[0]).parts(); p[i] = G(f, in.o[1]); f.regs[in.dst] = mkAgg(p); f.ip++; return; }
        case Instruction::ShuffleVector: {
            auto* sv = cast<ShuffleVectorInst>(in.I); std::vector<Val> all = G(f, in.o[0]).parts(); for (auto& x : G(f, in.o[1]).parts()) all.push_back(x);
            std::vector<Val> p; unsigned ew = bits(cast<FixedVectorType>(in.ty)->getElementType()); for (int m : sv->getShuffleMask()) p.push_back(m < 0 ? U(ew) : all[m]); f.regs[in.dst] = mkAgg(p); f.ip++; return;
        }
        case Instruction::AtomicRMW: {
            auto* a = cast<AtomicRMWInst>(in.I); u64 p = concretize(s, G(f, in.o[0])); Val old = load(s, p, in.ty), x = G(f, in.o[1]), nv;
            switch (a->getOperation()) { case AtomicRMWInst::Add: nv = binop(s, Instruction::Add, old, x, in.w, in.I); break; case AtomicRMWInst::Sub: nv = binop(s, Instruction::Sub, old, x, in.w, in.I); break; case AtomicRMWInst::Xchg: nv = x; break; default: inconclusive("atomicrmw"); }
            store(s, p, nv, in.ty); f.regs[in.dst] = old; f.ip++; return;
        }
        case Instruction::AtomicCmpXchg: {
            u64 p = concretize(s, G(f, in.o[0])); Type* t = in.I->getOperand(1)->getType(); Val old = load(s, p, t); Val eq = icmp(s, CmpInst::ICMP_EQ, old, G(f, in.o[1]), in.I);
            if (eq.k != CONC) inconclusive("symbolic cmpxchg"); if (eq.c) store(s, p, G(f, in.o[2]), t); f.regs[in.dst] = mkAgg({old, eq}); f.ip++; return;
        }
        case Instruction::Fence: f.ip++; return;
        default:
            if (in.I->isBinaryOp()) { Val r = binop(s, in.op, G(f, in.o[0]), G(f, in.o[1]), in.w, in.I); Frame& g = s.fr.back(); g.regs[in.dst] = r; g.ip++; return; }
            if (in.I->isCast()) { Val r = castv(s, in.op, G(f, in.o[0]), in.w, in.I); Frame& g = s.fr.back(); g.regs[in.dst] = r; g.ip++; return; }
            inconclusive(std::string("instruction ") + in.I->getOpcodeName());
        }
    }
    // a model of the path; inputs are pinned to pseudo-random values where the path condition allows it
    std::shared_ptr<z3::model> spread(State& s, u64 x, bool big = false)
    {
        std::shared_ptr<z3::model> m = s.model; if (!m) query(s.pc, nullptr, &m);
        if (fpMode) return m;
        PCP pc = s.pc; int n = 0;
        for (auto& v : *s.syms) {
            if (++n > 48) break;
            x = x * 6364136223846793005ull + 1442695040888963407ull; u64 r = x >> 33;
            z3::expr c(Z());
            if (v.kind == 'n' && big && r % 8) c = v.e >= Z().int_val((int64_t)(r & 8 ? 16777217 : 1) + (int64_t)((r >> 5) % 3000000)) || v.e <= -Z().int_val((int64_t)(r & 16 ? 16777217 : 1) + (int64_t)((r >> 5) % 3000000));
            else if (v.kind == 'n') c = v.e == Z().int_val((int64_t)(r % 19) - 9);
            else if (v.kind == 'b') c = v.e == Z().bv_val((uint64_t)(r * 0x9E3779B97F4A7C15ull), v.w);
            else continue;
            std::shared_ptr<z3::model> m2; bool ok = false;
            try { ok = query(pc, &c, &m2) == z3::sat; } catch (Inconclusive&) { break; }
            if (ok) { pc = std::make_shared<PC>(pc, c); m = m2; }
        }
        return m;
    }
    // go on where the violated assertion holds, unless that is hard to decide
    void assumeAfterViolation(State& s, const z3::expr& c)
    {
        unsigned full = qTimeout; qTimeout = std::min(full, 4000u); setTimeout(*S); bool hard = false;
        try { assume(s, c); } catch (Inconclusive&) { hard = true; } catch (PathEnd&) { qTimeout = full; setTimeout(*S); throw; }
        qTimeout = full; setTimeout(*S); if (hard) throw PathEnd{};
    }
    // an assertion the solver does not decide quickly: inputs of the path that falsify it, if some are found easily
    bool feasibleAssert(State& s, const z3::expr& nc, std::shared_ptr<z3::model>* mo)
    {
        if (fpMode || nc.is_false()) return feasible(s, nc, mo);
        unsigned full = qTimeout;
        auto limit = [&](unsigned t) { qTimeout = t; setTimeout(*S); };
        try { limit(std::min(full, 8000u)); bool r = feasible(s, nc, mo); limit(full); return r; } catch (Inconclusive&) { limit(full); }
        limit(std::min(full, 1000u)); double t = now();
        for (u64 k = 0; k < 8 && now() - t < 20; ++k) {
            std::shared_ptr<z3::model> m; try { m = spread(s, (seed + k) * 0x9E3779B97F4A7C15ull + 11, k & 1); } catch (Inconclusive&) { continue; }
            if (m && m->eval(nc, true).is_true()) { if (mo) *mo = m; limit(full); return true; }
        }
        limit(full);
        return feasible(s, nc, mo);
    }
    // the encoding ends here: inputs that lead to this point, to be tried on the real code
    std::vector<std::string> candidates;
    void candidate(State& s)
    {
        try {
            for (u64 k = 0; k < 4; ++k) {
                auto m = spread(s, (seed + k) * 0x9E3779B97F4A7C15ull + 7, k & 1); std::string r = "{"; bool first = true;
                for (auto& p : inputsOf(s, *m)) { r += (first ? "" : ",") + q(p.first) + ":" + q(p.second); first = false; }
                candidates.push_back(r + "}");
            }
        } catch (Inconclusive&) {} catch (z3::exception&) {} catch (PathEnd&) {}
    }
    void finishPath(State& s)
    {
        ++paths;
        for (auto& r : s.reached) reach[r]++;
        if (s.fr.empty() && samples.size() < maxSamples && (paths < 2 || paths % 7 == 3 || work.empty())) {
            std::shared_ptr<z3::model> m = spread(s, seed * 0x9E3779B97F4A7C15ull + paths);
            samples.push_back(sampleJson(s, *m));
        }
    }
    static std::string q(const std::string& t) { std::string r = "\""; for (char c : t) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; }
    std::string sampleJson(State& s, z3::model& m)
    {
        std::string r = "{\"inputs\":{"; bool first = true;
        for (auto& p : inputsOf(s, m)) { r += (first ? "" : ",") + q(p.first) + ":" + q(p.second); first = false; }
        r += "},\"observed\":["; first = true;
        for (auto& o : s.obs) {
            std::string v = "?";
            if (o.v.k == CONC) { if (o.ty == 'd') { char b[64]; snprintf(b, sizeof b, "%.17g", bitsToD(o.v.c, o.v.w)); v = b; } else v = std::to_string(sext(o.v.c, o.v.w)); }
            else if (o.v.k == FI && !o.v.n->opaque) { z3::expr x = m.eval(o.v.e(), true); std::string t = x.to_string(); if (t.size() > 3 && t[0] == '(') t = "-" + t.substr(3, t.size() - 4); char b[64]; snprintf(b, sizeof b, "%.17g", std::ldexp(atof(t.c_str()), o.v.n->scale)); v = b; }
            else if (o.v.k == BV && o.v.w == 1) v = m.eval(o.v.e(), true).is_true() ? "1" : "0";
            else if (o.v.k == BV || o.v.k == CAT) { if (!hasUndef(o.v)) { u64 n = 0; m.eval(bvOf(o.v), true).is_numeral_u64(n); if (o.ty == 'd') { char b[64]; snprintf(b, sizeof b, "%.17g", bitsToD(n, o.v.w)); v = b; } else v = std::to_string(sext(n, o.v.w)); } }
            r += (first ? "" : ",") + std::string("[") + q(o.label) + "," + q(v) + "]"; first = false;
        }
        return r + "]}";
    }
    void runState(StateP sp)
    {
        try {
            u64 n = 0;
            for (;;) {
                step(*sp);
                if ((++n & 0x3fff) == 0) { sp->nInstr += 0x4000; if (sp->nInstr > pathInstr) violation(*sp, "hang", "no termination within the instruction bound"); timeCheck(); if (instrs > maxInstr) inconclusive("instruction budget exhausted"); }
            }
        } catch (PathEnd&) { finishPath(*sp); } catch (Inconclusive&) { candidate(*sp); throw; }
    }
    void run(const std::string& entry)
    {
        t0 = std::chrono::steady_clock::now();
        z3::context* zc = &Z(); double limit = timeout; // ends a query that runs beyond the time budget
        std::thread([zc, limit] { std::this_thread::sleep_for(std::chrono::duration<double>(limit)); for (;;) { Z3_interrupt(*zc); std::this_thread::sleep_for(std::chrono::milliseconds(500)); } }).detach();
        S = std::make_unique<z3::solver>(Z()); setTimeout(*S);
        DL = &M->getDataLayout();
        root = std::make_shared<State>(); root->syms = std::make_shared<std::vector<SymVar>>();
        initGlobals(*root);
        setupBuiltins();
        // global constructors
        std::vector<const Function*> seq;
        if (auto* g = M->getNamedGlobal("llvm.global_ctors")) if (g->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer())) {
            std::vector<std::pair<u64, const Function*>> v;
            for (auto& o : ca->operands()) { auto* st = cast<ConstantStruct>(o.get()); if (auto* fn = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), fn}); }
            std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
            for (auto& p : v) seq.push_back(p.second);
        }
        const Function* E = M->getFunction(entry); if (!E || E->isDeclaration()) inconclusive("no entry " + entry);
        for (auto* c : seq) {
            pushCall(*root, finfo(c), {}, nullptr);
            try { while (!root->fr.empty()) step(*root); } catch (PathEnd&) {}
            if (!work.empty() || !viol.empty()) inconclusive("static initialisation forks or fails");
        }
        paths = 0;
        root->leakMark = root->mem.size();
        pushCall(*root, finfo(E), {}, nullptr);
        work.push_back(root); root.reset();
        while (!work.empty()) {
            StateP sp = work.back(); work.pop_back();
            runState(sp);
            if (viol.size() >= maxViol) break;
            if (paths > maxPaths) inconclusive("path budget exhausted");
            timeCheck();
        }
    }
    void writeCover()
    {
        std::map<std::string, int> l; // file:line -> executed (1) or only reached statically (0)
        for (auto& p : funcs) for (auto& b : p.second->bbs) for (auto& i : b.in)
            for (const DILocation* d = i.I->getDebugLoc(); d; d = d->getInlinedAt()) {
                std::string fn = d->getFilename().str(); if (!fn.empty() && fn[0] != '/') fn = d->getDirectory().str() + "/" + fn;
                if (fn.compare(0, repo.size(), repo) || !d->getLine()) continue;
                int& x = l[fn.substr(repo.size()) + ":" + std::to_string(d->getLine())]; if (i.seen) x = 1;
            }
        std::ofstream f(coverFile); for (auto& p : l) f << p.first << " " << p.second << "\n";
    }
    void report(const std::string& entry, const std::string& err)
    {
        std::string r = "{\"entry\":" + q(entry) + ",\"error\":" + (err.empty() ? "null" : q(err));
        char b[600]; snprintf(b, sizeof b, ",\"paths\":%llu,\"forks\":%llu,\"instructions\":%llu,\"queries\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"asserts\":%llu,\"assert_queries\":%llu,\"assert_syntactic\":%llu,\"wall_s\":%.3f,\"complete\":%s",
            (unsigned long long)paths, (unsigned long long)forks, (unsigned long long)instrs, (unsigned long long)queries, solverT, maxQ, (unsigned long long)asserts, (unsigned long long)assertQ, (unsigned long long)trivial, now(), (err.empty() && work.empty()) ? "true" : "false");
        r += b; r += ",\"reach\":{"; bool f = true; for (auto& p : reach) { r += (f ? "" : ",") + q(p.first) + ":" + std::to_string(p.second); f = false; }
        r += "},\"assert_labels\":{"; f = true; for (auto& p : assertCnt) { r += (f ? "" : ",") + q(p.first) + ":" + std::to_string(p.second); f = false; }
        r += "},\"functions\":{"; f = true; for (auto& p : repoFns) { r += (f ? "" : ",") + q(p.first) + ":" + q(p.second); f = false; }
        r += "},\"violations\":["; f = true;
        for (auto& v : viol) {
            r += (f ? "" : ","); f = false; r += "{\"kind\":" + q(v.kind) + ",\"label\":" + q(v.label) + ",\"inputs\":{"; bool g = true; for (auto& p : v.inputs) { r += (g ? "" : ",") + q(p.first) + ":" + q(p.second); g = false; }
            r += "},\"stack\":["; g = true; for (auto& x : v.stack) { r += (g ? "" : ",") + q(x); g = false; } r += "]}";
        }
        r += "],\"samples\":["; f = true; for (auto& x : samples) { r += (f ? "" : ",") + x; f = false; }
        r += "],\"candidates\":["; f = true; for (auto& x : candidates) { r += (f ? "" : ",") + x; f = false; }
        r += "]}"; std::cout << r << std::endl;
    }
};

int main(int argc, char** argv)
{
    if (argc < 3) { std::cerr << "usage: irsym module entry [k=v]\n"; return 2; }
    ZC = std::make_unique<z3::context>();
    auto* E = new Engine; std::string entry = argv[2];
    std::string err;
    for (int i = 3; i < argc; ++i) {
        std::string a = argv[i]; size_t p = a.find('='); std::string k = a.substr(0, p), v = p == std::string::npos ? "" : a.substr(p + 1);
        if (k == "timeout") E->timeout = atof(v.c_str()); else if (k == "qtimeout") E->qTimeout = atoi(v.c_str()); else if (k == "maxviol") E->maxViol = atoi(v.c_str());
        else if (k == "fp") E->fpMode = v == "1"; else if (k == "repo") E->repo = v; else if (k == "samples") E->maxSamples = atoi(v.c_str()); else if (k == "maxpaths") E->maxPaths = atoll(v.c_str());
        else if (k == "pathinstr") E->pathInstr = atoll(v.c_str()); else if (k == "cover") E->coverFile = v; else if (k == "seed") E->seed = atoll(v.c_str());
        else { std::cerr << "unknown option " << k << "\n"; return 2; }
    }
    LLVMContext ctx; SMDiagnostic d; E->M = parseIRFile(argv[1], d, ctx);
    if (!E->M) { d.print("irsym", errs()); return 2; }
    try { E->run(entry); }
    catch (Inconclusive& x) { err = x.msg; if (!E->work.empty()) {} }
    catch (z3::exception& x) { err = std::string("z3: ") + x.msg(); }
    E->report(entry, err);
    if (!E->coverFile.empty()) E->writeCover();
    std::cout.flush(); _exit(err.empty() ? (E->viol.empty() ? 0 : 1) : 3);
}
