// Symbolic executor for LLVM IR. See DESIGN.md for the semantics it implements.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/resource.h>
#include <deque>
#include <random>
#include <sstream>
#include <pthread.h>
#include <unistd.h>
#include <llvm/IR/IntrinsicsX86.h>

using namespace llvm;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Val {
    E e = nullptr; u64 c = 0; uint16_t w = 0; bool f = false;
    std::shared_ptr<std::vector<Val>> agg;
    bool conc() const { return !e && !agg; }
};
static Val VI(u64 c, unsigned w) { Val v; v.c = w >= 64 ? c : (c & ((1ull << w) - 1)); v.w = w; return v; }
static Val VF(double d, unsigned w) { Val v; v.f = true; v.w = w; v.c = w == 32 ? fbits((float)d) : dbits(d); return v; }
static Val VFB(u64 bits, unsigned w) { Val v; v.f = true; v.w = w; v.c = bits; return v; }
static Val VA(std::vector<Val> x) { Val v; v.agg = std::make_shared<std::vector<Val>>(std::move(x)); return v; }
static Val VE(E e, unsigned w, bool f) {
    Val v; v.w = w; v.f = f;
    if (!f && isc(e) && w <= 64) { v.c = (u64)e->c; return v; }
    if (f && e->op == Op::FConst) { if (e->w == w) { v.c = (u64)e->c; return v; } double d = fval((u64)e->c, e->w); return VF(d, w); }
    if (f && e->op == Op::RConst) {
        double d = e->q->get_d();
        if (mpq_class(d) == *e->q && (w == 64 || (double)(float)d == d)) { return VF(d, w); }
    }
    v.e = e; return v;
}
static E EX(const Val& v) {
    if (v.e) return v.e;
    if (!v.f) return mkc(v.c, v.w);
    double d = fval(v.c, v.w);
    if (g_fpmode || !std::isfinite(d)) return mkfc(v.c, v.w);
    return mkq(mpq_class(d));
}
static bool isundef(const Val& v) { return v.e && v.e->undef; }

struct SymB { E e; u8 idx; u8 fw; };  // fw: width of a float expression stored here (0 = integer)
struct Object {
    u64 size; u8 kind;  // 0 heap, 1 stack, 2 global, 3 const global
    bool alive = true;
    std::vector<u8> st, by;  // st: 0 undef 1 concrete 2 symbolic
    std::vector<SymB> sy;
    const char* what = "";
    Object(u64 n, u8 k) : size(n), kind(k), st(n, 0), by(n, 0) {}
    void needsym() { if (sy.empty()) sy.resize(size); }
};
typedef std::shared_ptr<Object> ObjP;
static const u64 OFF0 = 0x10000;

struct Operand { bool isreg; u32 slot; Val v; };
struct DInst { const Instruction* I; unsigned op; int dst; std::vector<Operand> ops; i64 gepoff = 0; std::vector<std::pair<u32, i64>> gepidx; };
struct DBlock { const BasicBlock* bb; std::vector<DInst> ins; unsigned nphi; };
struct FInfo { const Function* F; unsigned nslots; std::vector<DBlock> blocks; std::unordered_map<const BasicBlock*, u32> bidx; };

struct Frame {
    FInfo* f; std::vector<Val> r; u32 bb = 0, pc = 0; u32 prev = 0;
    std::vector<u32> allocas;
    int dst = -1;                    // caller slot for the result
    const CallBase* site = nullptr;  // call site in the caller
};
struct Input { E e; std::string name; std::string val; };
struct State {
    std::vector<Frame> fr;
    std::unordered_map<u32, ObjP> mem;
    std::vector<E> pc;
    std::unordered_map<E, bool> known;
    std::unordered_map<E, u64> kval;
    std::vector<Input> inputs;
    std::map<std::string, int> names;
    u32 fresh = 0;
    std::string thrown;                     // where the last exception was thrown
    std::vector<std::pair<u64, u64>> exc;   // caught exception stack (object, typeinfo)
    u64 curexc = 0, curti = 0;
    std::map<u64, u64> exti;                // exception object -> type info
    u64 errnoobj = 0;
    u64 insts = 0; u32 forks = 0;
    int depth = 0;
};

struct Kill { };      // path ends (failure recorded or infeasible)
struct Retry { };     // re-execute the instruction
struct Inconclusive : std::runtime_error { using std::runtime_error::runtime_error; };
enum R { NEXT, JUMPED };

struct Failure { std::string kind, msg, loc, stack; Model m; std::vector<std::pair<std::string, std::string>> inputs; bool model; };

struct Engine {
    LLVMContext C; std::unique_ptr<Module> M; const DataLayout* DL;
    Solver sol;
    std::unordered_map<u32, ObjP> gmem;       // globals (initial)
    std::unordered_map<const GlobalValue*, u64> gaddr;
    std::unordered_map<u64, const Function*> fat;
    std::unordered_map<const Function*, std::unique_ptr<FInfo>> fi;
    std::unordered_map<const Function*, int> bid;
    u32 nextobj = 1;
    std::deque<std::unique_ptr<State>> work;
    std::vector<Failure> fails; std::vector<std::string> incon;
    std::map<std::string, u64> covers, checks;
    std::set<const Function*> visited;
    u64 paths = 0, killed = 0, insts = 0, forks = 0, checkq = 0, checktriv = 0, checkpoly = 0, checkraw = 0, checkfull = 0;
    double tstart = now(), maxtime = 600; u64 maxpaths = 200000, maxinsts = 2000000000ull; u32 maxenum = 600;
    std::map<std::string, u64> typeids;
    double margin = 1e-4;
    bool verbose = false;
    bool stop_first = true;
    std::set<std::string> stubs;

    // ---------- failures ----------
    std::string loc(State& S) {
        std::string s;
        for (size_t i = S.fr.size(); i-- > 0 && s.size() < 3000;) {
            Frame& f = S.fr[i];
            auto& b = f.f->blocks[f.bb]; const Instruction* I = f.pc < b.ins.size() ? b.ins[f.pc].I : nullptr;
            s += demangle(f.f->F->getName().str());
            if (I) if (auto* d = I->getDebugLoc().get()) s += " (" + d->getFilename().str() + ":" + std::to_string(d->getLine()) + ")";
            s += "\n";
        }
        return s;
    }
    std::string topline(State& S) {
        for (size_t i = S.fr.size(); i-- > 0;) {
            Frame& f = S.fr[i]; auto& b = f.f->blocks[f.bb]; const Instruction* I = f.pc < b.ins.size() ? b.ins[f.pc].I : nullptr;
            if (I) if (auto* d = I->getDebugLoc().get()) return d->getFilename().str() + ":" + std::to_string(d->getLine());
        }
        return "";
    }
    std::vector<E> wants(State& S) { std::vector<E> w; for (auto& i : S.inputs) if (i.e) w.push_back(i.e); return w; }
    void fillinputs(State& S, Failure& f, Model& m) {
        for (auto& i : S.inputs) {
            std::string v = i.val;
            if (i.e) { auto it = m.v.find(*i.e->name); v = it == m.v.end() ? "0" : it->second; }
            f.inputs.push_back({i.name, v});
        }
    }
    void record(State& S, const std::string& kind, const std::string& msg, Model* m) {
        Failure f; f.kind = kind; f.msg = msg; f.loc = topline(S); f.stack = kind == "exception" && !S.thrown.empty() ? "thrown at " + S.thrown : loc(S); f.model = m != nullptr;
        Model mm; if (m) mm = *m;
        fillinputs(S, f, mm); fails.push_back(f);
        if (verbose) { std::cerr << "FAIL " << kind << ": " << msg << "\n" << f.stack; for (auto& i : f.inputs) std::cerr << "   " << i.first << " = " << i.second << "\n"; }
    }
    // obtain a model of the path and record the failure
    void failpath(State& S, const std::string& kind, const std::string& msg, const std::vector<E>& extra = {}) {
        std::string key = kind + "|" + msg + "|" + topline(S);
        if (failkeys[key]++ >= 2) return;
        Model m; Res r = Res::Unknown;
        // Prefer well-conditioned inputs
        r = sol.check(S.pc, extra, 8000, &m, wants(S));
        if (r == Res::Unsat) { failkeys[key]--; return; }
        if (r == Res::Unknown) {
            if (sample(S, extra, m)) r = Res::Sat;
        }
        if (r == Res::Sat) record(S, kind, msg, &m);
        else { incon.push_back(kind + ": " + msg + " at " + topline(S) + " (no model: " + sol.lasterr + ")"); }
    }
    std::map<std::string, int> failkeys;
    // fix most real inputs to random values and let the solver decide the rest
    bool sample(State& S, const std::vector<E>& extra, Model& m) {
        std::mt19937 rng(12345);
        for (int t = 0; t < 24; t++) {
            std::vector<E> q = extra;
            for (auto& i : S.inputs) if (i.e && i.e->f && !leading.count(i.e)) {
                if (t >= 12 && (rng() % 3) == 0) continue;
                auto it = frange.find(i.e); double lo = -2, hi = 2; if (it != frange.end()) { lo = std::max(it->second.first, -8.0); hi = std::min(it->second.second, 8.0); if (lo > hi) { lo = it->second.first; hi = it->second.second; } }
                if (unitmember.count(i.e)) { lo = -0.5; hi = 0.5; }
                double v = lo + (hi - lo) * ((rng() % 65) / 64.0); v = std::ldexp(std::round(std::ldexp(v, 6)), -6); if (v < lo) v = lo; if (v > hi) v = hi;
                q.push_back(mkraw(Op::FEq, false, 1, 0, {i.e, mkq(mpq_class(v))}));
            }
            if (sol.check(S.pc, q, 1500, &m, wants(S)) == Res::Sat) return true;
            if (now() - tstart > maxtime) break;
        }
        return false;
    }
    std::set<E> leading, unitmember; std::map<E, std::pair<double, double>> frange;

    [[noreturn]] void die(State& S, const std::string& kind, const std::string& msg) { failpath(S, kind, msg); throw Kill(); }
    [[noreturn]] void uninit(State& S, const std::string& what) { die(S, "uninitialised", what); }

    // ---------- decisions ----------
    bool nonneg(E e, int d = 0) {
        if (d > 40) return false;
        switch (e->op) {
            case Op::RConst: return *e->q >= 0;
            case Op::FMul: return e->k[0] == e->k[1] || (nonneg(e->k[0], d + 1) && nonneg(e->k[1], d + 1));
            case Op::FAdd: return nonneg(e->k[0], d + 1) && nonneg(e->k[1], d + 1);
            case Op::FDiv: return nonneg(e->k[0], d + 1) && nonneg(e->k[1], d + 1);
            case Op::FSqrt: case Op::UIToF: return true;
            case Op::Ite: return nonneg(e->k[1], d + 1) && nonneg(e->k[2], d + 1);
            case Op::Var: { auto it = frange.find(e); return it != frange.end() && it->second.first >= 0; }
            default: return false;
        }
    }
    bool positive(E e, int d = 0) {
        if (d > 40) return false;
        switch (e->op) {
            case Op::RConst: return *e->q > 0;
            case Op::FMul: case Op::FDiv: return positive(e->k[0], d + 1) && positive(e->k[1], d + 1);
            case Op::FAdd: return (positive(e->k[0], d + 1) && nonneg(e->k[1], d + 1)) || (nonneg(e->k[0], d + 1) && positive(e->k[1], d + 1));
            case Op::FSqrt: return positive(e->k[0], d + 1);
            case Op::Var: { auto it = frange.find(e); return it != frange.end() && it->second.first > 0; }
            default: return false;
        }
    }
    std::unordered_map<E, u32> dag;
    u32 dagsize(E e, std::unordered_set<E>& seen, u32 lim) {
        if (!seen.insert(e).second || seen.size() > lim) return seen.size();
        for (E k : e->k) dagsize(k, seen, lim);
        return seen.size();
    }
    u32 dagsz(E e, u32 lim = 5000) { auto it = dag.find(e); if (it != dag.end()) return it->second; std::unordered_set<E> s; return dag[e] = dagsize(e, s, lim); }
    std::unordered_map<E, int> quickmemo;
    int quick(E c) { auto it = quickmemo.find(c); if (it != quickmemo.end()) return it->second; return quickmemo[c] = quick_(c); }
    int quick_(E c) {  // 1 true, 0 false, -1 unknown
        if (isc(c)) return c->c ? 1 : 0;
        if (isnot(c)) { int r = quick(c->k[0]); return r < 0 ? r : 1 - r; }
        if (!g_fpmode && (c->op == Op::FEq || c->op == Op::FLt || c->op == Op::FLe)) {
            E a = c->k[0], b = c->k[1];
            if (b->op == Op::RConst && *b->q == 0) {
                if (c->op == Op::FLt && nonneg(a)) return 0;
                if (c->op == Op::FEq && positive(a)) return 0;
                if (c->op == Op::FLe && positive(a)) return 0;
            }
            if (a->op == Op::RConst && *a->q == 0) {
                if (c->op == Op::FLe && nonneg(b)) return 1;
                if (c->op == Op::FLt && positive(b)) return 1;
            }
            if (dagsz(c, 2500) < 2500) try {
                size_t sv = g_polylimit; g_polylimit = 3000;
                struct G { size_t s; ~G() { g_polylimit = s; } } g{sv};
                Frac d = sol.alg.add(sol.alg.frac(a), sol.alg.frac(b), -1);
                if (d.n.zero()) return c->op == Op::FLt ? 0 : 1;
                if (d.d.empty() && d.n.isconst()) { int s = sgn(d.n.cval()); return c->op == Op::FEq ? s == 0 : c->op == Op::FLt ? s < 0 : s <= 0; }
                if (d.d.empty() && d.n.t.size() == 1 && c->op == Op::FEq) {
                    // single monomial over provably non-zero atoms
                    bool nz = true; for (auto& m : d.n.t.begin()->first) { E ae = sol.atom2e(m.first); if (!positive(ae)) nz = false; }
                    if (nz) return 0;
                }
            } catch (PolyTooBig&) {}
        }
        return -1;
    }
    void assume(State& S, E c) {
        if (istrue(c)) return;
        if (c->op == Op::And && c->w == 1) { assume(S, c->k[0]); assume(S, c->k[1]); S.known[c] = true; return; }
        if (isnot(c)) S.known[c->k[0]] = false; else S.known[c] = true;
        S.pc.push_back(c);
    }
    int lookup(State& S, E c) {
        if (isc(c)) return c->c ? 1 : 0;
        if (isnot(c)) { int r = lookup(S, c->k[0]); return r < 0 ? r : 1 - r; }
        auto it = S.known.find(c); if (it != S.known.end()) return it->second;
        if (c->op == Op::And && c->w == 1) { int a = lookup(S, c->k[0]), b = lookup(S, c->k[1]); if (a == 0 || b == 0) return 0; if (a == 1 && b == 1) return 1; }
        if (c->op == Op::Or && c->w == 1) { int a = lookup(S, c->k[0]), b = lookup(S, c->k[1]); if (a == 1 || b == 1) return 1; if (a == 0 && b == 0) return 0; }
        // ordered comparisons implied by known ones
        if (c->op == Op::FLe || c->op == Op::FLt || c->op == Op::FEq) {
            E a = c->k[0], b = c->k[1];
            auto kn = [&](Op o, E x, E y) -> int { auto i = S.known.find(mkraw(o, false, 1, 0, {x, y})); return i == S.known.end() ? -1 : i->second; };
            int lt = kn(Op::FLt, a, b), gt = kn(Op::FLt, b, a), le = kn(Op::FLe, a, b), ge = kn(Op::FLe, b, a), eq = kn(Op::FEq, a, b), eq2 = kn(Op::FEq, b, a);
            if (eq < 0) eq = eq2;
            if (c->op == Op::FLe) { if (lt == 1 || eq == 1 || gt == 0) { if (!g_fpmode || lt == 1 || eq == 1) return 1; } if (gt == 1 || (ge == 0 && !g_fpmode)) return gt == 1 ? 0 : 1; }
            if (c->op == Op::FLt) { if (gt == 1 || ge == 1 || eq == 1 || (le == 0)) return 0; if (!g_fpmode && ge == 0) return 1; }
            if (c->op == Op::FEq) { if (lt == 1 || gt == 1) return 0; if (eq >= 0) return eq; if (!g_fpmode && (le == 0 || ge == 0)) return 0; }
        }
        return -1;
    }
    void addstate(std::unique_ptr<State> s) { work.push_back(std::move(s)); }
    // ---------- normalisation of real expressions before they reach the solver ----------
    std::unordered_map<E, E> canonmemo, condmemo;
    u32 treesz(const Frac& f) { u32 n = 0; for (auto& t : f.n.t) { n += 2; for (auto& x : t.first) n += x.second; } for (auto& d : f.d) for (auto& t : sol.alg.factors[d.first].t) { n += 2; for (auto& x : t.first) n += x.second; } return n; }
    E canon(E e) {
        if (g_fpmode || e->undef || e->op == Op::RConst || e->op == Op::Var || e->op == Op::FConst) return e;
        auto it = canonmemo.find(e); if (it != canonmemo.end()) return it->second;
        E r = e;
        try {
            size_t sv = g_polylimit; g_polylimit = 2000; struct G { size_t s; ~G() { g_polylimit = s; } } g{sv};
            const Frac& f = sol.alg.frac(e);
            if (treesz(f) < 200) { E k = sol.frac2e(f); if (dagsz(k, 500) <= dagsz(e, 500)) r = k; }
        } catch (PolyTooBig&) {}
        return canonmemo[e] = r;
    }
    E normcond(E c) {
        if (g_fpmode || isc(c) || c->undef) return c;
        auto it = condmemo.find(c); if (it != condmemo.end()) return it->second;
        E r = c;
        if (isnot(c)) r = mk_not(normcond(c->k[0]));
        else if (c->w == 1 && c->op == Op::And) r = mk_and(normcond(c->k[0]), normcond(c->k[1]));
        else if (c->w == 1 && c->op == Op::Or) r = mk_or(normcond(c->k[0]), normcond(c->k[1]));
        else if (c->op == Op::FEq || c->op == Op::FLt || c->op == Op::FLe) {
            try {
                size_t sv = g_polylimit; g_polylimit = 3000; struct G { size_t s; ~G() { g_polylimit = s; } } g{sv};
                Frac d = sol.alg.add(sol.alg.frac(c->k[0]), sol.alg.frac(c->k[1]), -1);
                Poly n = d.n; bool ok = true;
                if (c->op != Op::FEq) for (auto& x : d.d) if (x.second & 1) {
                    E fe = sol.poly2e(sol.alg.factors[x.first]);
                    if (positive(fe)) continue;
                    Frac a; a.n = n; Frac b; b.n = sol.alg.factors[x.first]; Frac m = sol.alg.mul(a, b); if (!m.d.empty()) { ok = false; break; } n = m.n;
                }
                if (ok) {
                    if (n.isconst()) { int s = sgn(n.cval()); r = (c->op == Op::FEq ? s == 0 : c->op == Op::FLt ? s < 0 : s <= 0) ? mktrue() : mkfalse(); }
                    else if (n.t.size() < 400) {
                        mpq_class l = abs(n.t.rbegin()->second); n = pscale(n, mpq_class(1) / l); if (c->op == Op::FEq && n.t.rbegin()->second < 0) n = pscale(n, -1);
                        mpq_class k0 = 0; { auto z = n.t.find(Mono()); if (z != n.t.end()) { k0 = z->second; n.t.erase(z); } }
                        // keep "lhs op constant" so that bounds remain recognisable
                        E p = sol.poly2e(n); E cc = mkq(-k0);
                        E cand = fcmpE(c->op, p, cc);
                        if (n.t.size() == 1 && n.t.rbegin()->second < 0 && c->op != Op::FEq) cand = fcmpE(c->op, mkq(k0), sol.poly2e(pscale(n, -1)));
                        r = cand;
                    }
                }
            } catch (PolyTooBig&) {}
        }
        return condmemo[c] = r;
    }
    bool decide(State& S, E c) {
        if (c->undef) uninit(S, "branch or result depends on an uninitialised value");
        int k = lookup(S, c); if (k >= 0) return k;
        k = quick(c); if (k >= 0) { return k; }
        E c0 = c; c = normcond(c);
        if (c != c0) { k = lookup(S, c); if (k < 0) k = quick(c); if (k >= 0) { S.known[isnot(c0) ? c0->k[0] : c0] = isnot(c0) ? !k : k; return k; } }
        auto remember = [&](State& T, bool v) { if (c != c0) T.known[isnot(c0) ? c0->k[0] : c0] = isnot(c0) ? !v : v; };
        E n = mk_not(c);
        Res t = sol.check(S.pc, {c}, 2000);
        if (t == Res::Unsat) { remember(S, false); if (isnot(c)) S.known[c->k[0]] = true; else S.known[c] = false; return false; }
        Res f = sol.check(S.pc, {n}, 2000);
        if (f == Res::Unsat) { remember(S, true); if (isnot(c)) S.known[c->k[0]] = false; else S.known[c] = true; return true; }
        auto N = std::make_unique<State>(S); N->forks++; S.forks++; forks++;
        remember(*N, false); remember(S, true);
        assume(*N, n); addstate(std::move(N));
        assume(S, c);
        return true;
    }
    // split on the floating-point comparisons an integer depends on
    E pin(State& S, E e, std::unordered_map<E, E>& memo) {
        if (e->f || isc(e) || e->op == Op::Var) return e;
        auto it = memo.find(e); if (it != memo.end()) return it->second;
        E r = e;
        switch (e->op) {
            case Op::FEq: case Op::FLt: case Op::FLe: r = decide(S, e) ? mktrue() : mkfalse(); break;
            case Op::Add: case Op::Sub: case Op::Mul: case Op::And: case Op::Or: case Op::Xor: case Op::Shl: case Op::LShr: case Op::AShr: case Op::UDiv: case Op::SDiv: case Op::URem: case Op::SRem: {
                E a = pin(S, e->k[0], memo), b = pin(S, e->k[1], memo); if (a != e->k[0] || b != e->k[1]) r = mk_bin(e->op, a, b); break; }
            case Op::ZExt: case Op::SExt: { E a = pin(S, e->k[0], memo); if (a != e->k[0]) r = mk_ext(e->op == Op::SExt, a, e->w); break; }
            case Op::Extract: { E a = pin(S, e->k[0], memo); if (a != e->k[0]) r = mk_extract(a, (unsigned)e->c, e->w); break; }
            case Op::Concat: { E a = pin(S, e->k[0], memo), b = pin(S, e->k[1], memo); if (a != e->k[0] || b != e->k[1]) r = mk_concat(a, b); break; }
            case Op::Eq: case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle: { E a = pin(S, e->k[0], memo), b = pin(S, e->k[1], memo); if (a != e->k[0] || b != e->k[1]) r = mk_cmp(e->op, a, b); break; }
            case Op::Ite: { E c = pin(S, e->k[0], memo); if (istrue(c)) r = pin(S, e->k[1], memo); else if (isfalse(c)) r = pin(S, e->k[2], memo); else { E a = pin(S, e->k[1], memo), b = pin(S, e->k[2], memo); r = mk_ite(c, a, b); } break; }
            default: break;
        }
        return memo[e] = r;
    }
    u64 concretise(State& S, E e, const char* why) {
        if (isc(e)) return (u64)e->c;
        if (e->undef) uninit(S, std::string("uninitialised value used as ") + why);
        auto it = S.kval.find(e); if (it != S.kval.end()) return it->second;
        if (!g_fpmode) { std::unordered_map<E, E> memo; E p = pin(S, e, memo); if (isc(p)) { S.kval[e] = (u64)p->c; return (u64)p->c; } e = p; }
        // enumerate all feasible values, one path each
        std::vector<u64> vals; std::vector<E> ex;
        E probe = mkvar("!probe" + std::to_string(e->w), e->w, false);
        for (;;) {
            Model m; std::vector<E> q = ex; q.push_back(mkraw(Op::Eq, false, 1, 0, {probe, e}));
            Res r = sol.check(S.pc, q, 10000, &m, {probe});
            if (r == Res::Unsat) break;
            if (r == Res::Unknown) throw Inconclusive(std::string("cannot enumerate symbolic ") + why);
            u64 v = (u64)strtoll(m.v[*probe->name].c_str(), nullptr, 10); v &= (u64)maskw(e->w);
            vals.push_back(v); ex.push_back(mk_not(mk_cmp(Op::Eq, e, mkc(v, e->w))));
            if (vals.size() > maxenum) throw Inconclusive(std::string("too many values for symbolic ") + why);
        }
        if (vals.empty()) throw Kill();
        for (size_t i = 1; i < vals.size(); i++) {
            auto N = std::make_unique<State>(S); N->kval[e] = vals[i]; assume(*N, mk_cmp(Op::Eq, e, mkc(vals[i], e->w))); forks++; addstate(std::move(N));
        }
        S.kval[e] = vals[0]; assume(S, mk_cmp(Op::Eq, e, mkc(vals[0], e->w)));
        return vals[0];
    }
    u64 conc(State& S, const Val& v, const char* why) { if (v.conc()) return v.c; return concretise(S, v.e, why); }

    // ---------- memory ----------
    static u64 base(u32 id) { return ((u64)id << 32) + OFF0; }
    u64 alloc(State& S, u64 n, u8 kind) { u32 id = nextobj++; S.mem[id] = std::make_shared<Object>(n, kind); return base(id); }
    Object* look(State& S, u64 addr, u64 n, i64& off, bool wr, const char* what) {
        u32 id = addr >> 32;
        auto it = S.mem.find(id); ObjP* p = nullptr;
        if (it != S.mem.end()) p = &it->second;
        else { auto g = gmem.find(id); if (g != gmem.end()) { if (wr) p = &(S.mem[id] = g->second); else p = &g->second; } }
        if (!p) die(S, "memory", std::string(addr < 0x100000000ull ? "null or wild pointer " : "dangling pointer ") + what);
        off = (i64)(addr & 0xffffffffull) - (i64)OFF0;
        if (!(*p)->alive) die(S, "memory", std::string("use after free: ") + what);
        if (off < 0 || (u64)off + n > (*p)->size) die(S, "memory", std::string("out-of-bounds ") + what + " at offset " + std::to_string(off) + " size " + std::to_string(n) + " of object of " + std::to_string((*p)->size) + " bytes");
        if (wr) {
            if ((*p)->kind == 3) die(S, "memory", "write to constant");
            if (p->use_count() > 1) *p = std::make_shared<Object>(**p);
        }
        return p->get();
    }
    void stbytes(State& S, u64 addr, const Val& v, u64 n) {
        i64 o; Object* ob = look(S, addr, n, o, true, "write");
        if (v.conc() ) {
            for (u64 i = 0; i < n; i++) { ob->st[o + i] = 1; ob->by[o + i] = i < 8 ? (u8)(v.c >> (8 * i)) : 0; }
            return;
        }
        if (v.e->op == Op::Undef) { for (u64 i = 0; i < n; i++) ob->st[o + i] = 0; return; }
        if (isc(v.e)) { for (u64 i = 0; i < n; i++) { ob->st[o + i] = 1; ob->by[o + i] = (u8)(v.e->c >> (8 * i)); } return; }
        E e = v.e; if (!v.f && e->w != n * 8) e = mk_ext(false, e, n * 8);
        ob->needsym();
        for (u64 i = 0; i < n; i++) { ob->st[o + i] = 2; ob->sy[o + i] = SymB{e, (u8)i, (u8)(v.f ? v.w : 0)}; }
    }
    void store(State& S, u64 addr, const Val& v, Type* T) {
        if (auto* st = dyn_cast<StructType>(T)) { auto* L = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) store(S, addr + L->getElementOffset(i), elem(v, i, st->getElementType(i)), st->getElementType(i)); return; }
        if (auto* at = dyn_cast<ArrayType>(T)) { u64 s = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) store(S, addr + i * s, elem(v, i, at->getElementType()), at->getElementType()); return; }
        if (auto* vt = dyn_cast<FixedVectorType>(T)) { u64 s = DL->getTypeStoreSize(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); i++) store(S, addr + i * s, elem(v, i, vt->getElementType()), vt->getElementType()); return; }
        stbytes(S, addr, v, DL->getTypeStoreSize(T));
    }
    Val undefv(Type* T) {
        if (auto* st = dyn_cast<StructType>(T)) { std::vector<Val> x; for (Type* t : st->elements()) x.push_back(undefv(t)); return VA(x); }
        if (auto* at = dyn_cast<ArrayType>(T)) { std::vector<Val> x; for (u64 i = 0; i < at->getNumElements(); i++) x.push_back(undefv(at->getElementType())); return VA(x); }
        if (auto* vt = dyn_cast<FixedVectorType>(T)) { std::vector<Val> x; for (u64 i = 0; i < vt->getNumElements(); i++) x.push_back(undefv(vt->getElementType())); return VA(x); }
        unsigned w = tw(T); Val v; v.w = w; v.f = T->isFloatingPointTy(); v.e = mkundef(w, v.f); return v;
    }
    Val elem(const Val& v, u64 i, Type* T) { if (v.agg) return (*v.agg)[i]; return undefv(T); }
    unsigned tw(Type* T) {
        if (T->isIntegerTy()) return T->getIntegerBitWidth();
        if (T->isPointerTy()) return 64;
        if (T->isFloatTy()) return 32;
        if (T->isDoubleTy()) return 64;
        if (T->isX86_FP80Ty()) return 80;
        if (T->isVoidTy()) return 0;
        return (unsigned)DL->getTypeSizeInBits(T);
    }
    Val frombits(E e, Type* T) {  // e: BV of the full store width
        unsigned w = tw(T);
        if (T->isFloatingPointTy()) {
            if (e->op == Op::F2I) { return VE(e->k[0], w, true); }
            if (e->op == Op::Undef) return undefv(T);
            if (isc(e)) return VFB((u64)e->c, w);
            if (e->op == Op::Ite && !g_fpmode) { Val a = frombits(e->k[1], T), b = frombits(e->k[2], T); return VE(mkraw(Op::Ite, true, 64, 0, {e->k[0], EX(a), EX(b)}), w, true); }
            Val v; v.w = w; v.f = true; v.e = mkraw(Op::I2F, true, g_fpmode ? w : 64, 0, {e}); return v;
        }
        if (e->w != w) e = mk_extract(e, 0, w);
        return VE(e, w, false);
    }
    E f2i(E e, unsigned w) {
        if (e->op == Op::I2F) return e->k[0];
        if (e->op == Op::Undef) return mkundef(w, false);
        if (e->op == Op::FConst) return mkc(e->c, w);
        return mkraw(Op::F2I, false, w, 0, {e});
    }
    Val ldscalar(State& S, u64 addr, Type* T) {
        u64 n = DL->getTypeStoreSize(T); i64 o; Object* ob = look(S, addr, n, o, false, "read");
        bool allc = true, allu = true; for (u64 i = 0; i < n; i++) { if (ob->st[o + i] != 1) allc = false; if (ob->st[o + i] != 0) allu = false; }
        unsigned w = tw(T);
        if (allc && n <= 8) {
            u64 c = 0; for (u64 i = 0; i < n; i++) c |= (u64)ob->by[o + i] << (8 * i);
            if (T->isFloatingPointTy()) return VFB(c, w);
            return VI(c, w);
        }
        if (allu) return undefv(T);
        // single symbolic value
        if (ob->st[o] == 2 && ob->sy[o].idx == 0) {
            E e = ob->sy[o].e; u8 fw = ob->sy[o].fw; bool same = true;
            for (u64 i = 0; i < n && same; i++) same = ob->st[o + i] == 2 && ob->sy[o + i].e == e && ob->sy[o + i].idx == i && ob->sy[o + i].fw == fw;
            if (same) {
                if (T->isFloatingPointTy() && fw == w) return VE(e, w, true);
                if (!T->isFloatingPointTy() && !fw && e->w == n * 8) return VE(e->w == w ? e : mk_extract(e, 0, w), w, false);
            }
        }
        E acc = nullptr;
        for (u64 i = 0; i < n;) {
            E piece; u64 j = i + 1;
            if (ob->st[o + i] == 1) { u64 c = ob->by[o + i]; unsigned k = 1; while (j < n && k < 8 && ob->st[o + j] == 1) { c |= (u64)ob->by[o + j] << (8 * k); k++; j++; } piece = mkc(c, 8 * k); }
            else if (ob->st[o + i] == 0) { while (j < n && ob->st[o + j] == 0) j++; piece = mkundef(8 * (j - i), false); }
            else {
                SymB s = ob->sy[o + i]; while (j < n && ob->st[o + j] == 2 && ob->sy[o + j].e == s.e && ob->sy[o + j].fw == s.fw && ob->sy[o + j].idx == s.idx + (j - i)) j++;
                E ie = s.fw ? f2i(s.e, s.fw) : s.e; piece = mk_extract(ie, 8 * s.idx, 8 * (j - i));
            }
            acc = acc ? mk_concat(piece, acc) : piece; i = j;
        }
        return frombits(acc, T);
    }
    Val load(State& S, u64 addr, Type* T) {
        if (auto* st = dyn_cast<StructType>(T)) { std::vector<Val> x; auto* L = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) x.push_back(load(S, addr + L->getElementOffset(i), st->getElementType(i))); return VA(x); }
        if (auto* at = dyn_cast<ArrayType>(T)) { std::vector<Val> x; u64 s = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) x.push_back(load(S, addr + i * s, at->getElementType())); return VA(x); }
        if (auto* vt = dyn_cast<FixedVectorType>(T)) { std::vector<Val> x; u64 s = DL->getTypeStoreSize(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); i++) x.push_back(load(S, addr + i * s, vt->getElementType())); return VA(x); }
        return ldscalar(S, addr, T);
    }
    void copymem(State& S, u64 d, u64 s, u64 n) {
        if (!n) return;
        i64 so, dof; Object* a = look(S, s, n, so, false, "read (copy)");
        std::vector<u8> st(a->st.begin() + so, a->st.begin() + so + n), by(a->by.begin() + so, a->by.begin() + so + n); std::vector<SymB> sy;
        bool hs = !a->sy.empty(); if (hs) sy.assign(a->sy.begin() + so, a->sy.begin() + so + n);
        Object* b = look(S, d, n, dof, true, "write (copy)");
        if (hs) b->needsym();
        for (u64 i = 0; i < n; i++) { b->st[dof + i] = st[i]; b->by[dof + i] = by[i]; if (hs) b->sy[dof + i] = sy[i]; }
    }
    std::string cstr(State& S, u64 a) { std::string r; for (;; a++) { Val v = ldscalar(S, a, Type::getInt8Ty(C)); if (!v.conc()) throw Inconclusive("symbolic string"); if (!v.c) return r; r += (char)v.c; if (r.size() > 100000) throw Inconclusive("string too long"); } }

    // ---------- globals / constants ----------
    u64 gva(const GlobalValue* G) {
        auto it = gaddr.find(G); if (it != gaddr.end()) return it->second;
        if (auto* A = dyn_cast<GlobalAlias>(G)) { u64 r = gva(cast<GlobalValue>(A->getAliasee()->stripPointerCasts())); gaddr[G] = r; return r; }
        u32 id = nextobj++; u64 a = base(id); gaddr[G] = a;
        if (auto* F = dyn_cast<Function>(G)) { gmem[id] = std::make_shared<Object>(1, 3); fat[a] = F; return a; }
        auto* V = cast<GlobalVariable>(G);
        u64 n = V->getValueType()->isSized() ? (u64)DL->getTypeAllocSize(V->getValueType()) : 0;
        if (V->isDeclaration()) n = std::max<u64>(n, 512);
        auto O = std::make_shared<Object>(n, V->isConstant() ? 3 : 2); gmem[id] = O;
        if (V->hasInitializer()) ginit(*O, 0, V->getInitializer());
        else {
            std::string nm = V->getName().str();
            if (nm == "__libc_single_threaded") { O->st[0] = 1; O->by[0] = 1; }
            else { for (u64 i = 0; i < n; i++) { O->st[i] = 1; O->by[i] = 0; } }
        }
        return a;
    }
    void ginit(Object& O, u64 off, const Constant* K) {
        Type* T = K->getType();
        if (isa<UndefValue>(K)) return;
        if (isa<ConstantAggregateZero>(K) || K->isNullValue()) { u64 n = DL->getTypeAllocSize(T); for (u64 i = 0; i < n; i++) { O.st[off + i] = 1; O.by[off + i] = 0; } return; }
        if (auto* cs = dyn_cast<ConstantStruct>(K)) { auto* L = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) ginit(O, off + L->getElementOffset(i), cs->getOperand(i)); return; }
        if (isa<ConstantArray>(K) || isa<ConstantVector>(K)) { Type* et = K->getType()->isArrayTy() ? K->getType()->getArrayElementType() : cast<VectorType>(T)->getElementType(); u64 s = DL->getTypeAllocSize(et); for (unsigned i = 0; i < K->getNumOperands(); i++) ginit(O, off + i * s, cast<Constant>(K->getOperand(i))); return; }
        if (auto* cd = dyn_cast<ConstantDataSequential>(K)) { u64 s = cd->getElementByteSize(); for (unsigned i = 0; i < cd->getNumElements(); i++) ginit(O, off + i * s, cd->getElementAsConstant(i)); return; }
        Val v = cval(K); u64 n = DL->getTypeStoreSize(T);
        u128 c = v.e ? v.e->c : v.c;
        for (u64 i = 0; i < n; i++) { O.st[off + i] = 1; O.by[off + i] = (u8)(c >> (8 * i)); }
    }
    Val cval(const Constant* K) {
        Type* T = K->getType();
        if (auto* ci = dyn_cast<ConstantInt>(K)) { if (ci->getBitWidth() <= 64) return VI(ci->getZExtValue(), ci->getBitWidth()); if (ci->getBitWidth() > 128) { Val v; v.w = ci->getBitWidth(); if (ci->isZero()) { v.e = mkc(0, v.w); return v; } throw Inconclusive("wide integer constant"); } const uint64_t* p = ci->getValue().getRawData(); Val v; v.w = ci->getBitWidth(); v.e = mkc(((u128)p[1] << 64) | p[0], v.w); return v; }
        if (auto* cf = dyn_cast<ConstantFP>(K)) {
            if (T->isFloatTy()) return VFB(cf->getValueAPF().bitcastToAPInt().getZExtValue(), 32);
            if (T->isDoubleTy()) return VFB(cf->getValueAPF().bitcastToAPInt().getZExtValue(), 64);
            APFloat f = cf->getValueAPF(); bool li; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); Val v = VF(f.convertToDouble(), 64); v.w = tw(T); return v;
        }
        if (isa<ConstantPointerNull>(K)) return VI(0, 64);
        if (isa<UndefValue>(K)) return undefv(T);
        if (auto* g = dyn_cast<GlobalValue>(K)) return VI(gva(g), 64);
        if (isa<ConstantAggregateZero>(K)) {
            std::vector<Val> x; unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
            for (unsigned i = 0; i < n; i++) x.push_back(cval(K->getAggregateElement(i)));
            return VA(x);
        }
        if (isa<ConstantAggregate>(K) || isa<ConstantDataSequential>(K)) {
            std::vector<Val> x; unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
            for (unsigned i = 0; i < n; i++) x.push_back(cval(K->getAggregateElement(i)));
            return VA(x);
        }
        if (auto* ce = dyn_cast<ConstantExpr>(K)) {
            switch (ce->getOpcode()) {
                case Instruction::GetElementPtr: {
                    APInt off(64, 0); auto* gep = cast<GEPOperator>(ce);
                    if (!gep->accumulateConstantOffset(*DL, off)) throw Inconclusive("constant gep");
                    return VI(cval(ce->getOperand(0)).c + off.getSExtValue(), 64);
                }
                case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { Val v = cval(ce->getOperand(0)); v.w = tw(T); if (v.w < 64) v.c &= (1ull << v.w) - 1; return v; }
                case Instruction::Trunc: { Val v = cval(ce->getOperand(0)); return VI(v.c, tw(T)); }
                case Instruction::Sub: return VI(cval(ce->getOperand(0)).c - cval(ce->getOperand(1)).c, tw(T));
                case Instruction::Add: return VI(cval(ce->getOperand(0)).c + cval(ce->getOperand(1)).c, tw(T));
                case Instruction::ICmp: { u64 a = cval(ce->getOperand(0)).c, b = cval(ce->getOperand(1)).c; auto p = (CmpInst::Predicate)ce->getPredicate(); if (p == CmpInst::ICMP_EQ) return VI(a == b, 1); if (p == CmpInst::ICMP_NE) return VI(a != b, 1); break; }
                default: break;
            }
        }
        std::string s; raw_string_ostream os(s); K->print(os); throw Inconclusive("unsupported constant: " + s);
    }
    FInfo* finfo(const Function* F) {
        auto it = fi.find(F); if (it != fi.end()) return it->second.get();
        auto P = std::make_unique<FInfo>(); FInfo& I = *P; I.F = F;
        std::unordered_map<const Value*, u32> slot; u32 n = 0;
        for (auto& a : F->args()) slot[&a] = n++;
        for (auto& b : *F) { I.bidx[&b] = I.bidx.size(); for (auto& i : b) if (!i.getType()->isVoidTy()) slot[&i] = n++; }
        I.nslots = n;
        for (auto& b : *F) {
            DBlock d; d.bb = &b; d.nphi = 0;
            for (auto& i : b) {
                if (isa<DbgInfoIntrinsic>(i)) continue;
                DInst x; x.I = &i; x.op = i.getOpcode(); x.dst = i.getType()->isVoidTy() ? -1 : (int)slot[&i];
                if (isa<PHINode>(i)) d.nphi++;
                for (auto& op : i.operands()) {
                    const Value* v = op.get(); Operand o; o.isreg = false; o.slot = 0;
                    if (auto* k = dyn_cast<Constant>(v)) o.v = cval(k);
                    else if (slot.count(v)) { o.isreg = true; o.slot = slot[v]; }
                    x.ops.push_back(o);
                }
                if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
                    if (!g->getType()->isVectorTy()) for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                        const Value* idx = gi.getOperand(); unsigned on = 0; for (unsigned k = 1; k < g->getNumOperands(); k++) if (&g->getOperandUse(k) == &g->op_begin()[k] && g->getOperand(k) == idx) { on = k; }
                        // operand number: iterate in order
                        on = (unsigned)std::distance(gep_type_begin(g), gi) + 1;
                        if (auto* st = gi.getStructTypeOrNull()) x.gepoff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                        else {
                            i64 sz = DL->getTypeAllocSize(gi.getIndexedType());
                            if (auto* ci = dyn_cast<ConstantInt>(idx)) x.gepoff += ci->getSExtValue() * sz; else x.gepidx.push_back({on, sz});
                        }
                    }
                }
                d.ins.push_back(std::move(x));
            }
            I.blocks.push_back(std::move(d));
        }
        fi[F] = std::move(P); return fi[F].get();
    }

    // ---------- float arithmetic ----------
    static bool fin(const Val& v) { return std::isfinite(fval(v.c, v.w)); }
    Val fconst(const mpq_class& q, unsigned w) { return VE(mkq(q), w, true); }
    static bool iszero(const Val& v) { return v.conc() && fval(v.c, v.w) == 0; }
    static bool isone(const Val& v) { return v.conc() && fval(v.c, v.w) == 1; }
    Val fneg(const Val& a) {
        if (a.conc()) return VFB(a.c ^ (a.w == 32 ? 0x80000000ull : 0x8000000000000000ull), a.w);
        if (a.e->op == Op::FNeg) return VE(a.e->k[0], a.w, true);
        if (a.e->op == Op::RConst) return fconst(-*a.e->q, a.w);
        return VE(mkraw(Op::FNeg, true, a.e->w, 0, {a.e}), a.w, true);
    }
    int signof(State& S, const Val& v) {  // -1,0,1 by forking
        if (v.conc()) { double d = fval(v.c, v.w); return d > 0 ? 1 : d < 0 ? -1 : 0; }
        E z = mkq(0);
        if (decide(S, fcmpE(Op::FEq, v.e, z))) return 0;
        return decide(S, fcmpE(Op::FLt, v.e, z)) ? -1 : 1;
    }
    E fcmpE(Op o, E a, E b) {
        if (a == b && !g_fpmode) return o == Op::FLt ? mkfalse() : mktrue();
        if (a->op == Op::RConst && b->op == Op::RConst) { bool r = o == Op::FEq ? *a->q == *b->q : o == Op::FLt ? *a->q < *b->q : *a->q <= *b->q; return r ? mktrue() : mkfalse(); }
        if (o == Op::FEq && a->id > b->id && b->op != Op::RConst) std::swap(a, b);
        if (o == Op::FEq && a->op == Op::RConst) std::swap(a, b);
        return mkraw(o, false, 1, 0, {a, b});
    }
    Val fbin(State& S, unsigned op, const Val& a, const Val& b) {
        unsigned w = a.w;
        if (isundef(a) || isundef(b)) { Val v; v.w = w; v.f = true; v.e = mkundef(w, true); return v; }
        if (w == 80) throw Inconclusive("x86 long double");
        if (g_fpmode) {
            if (a.conc() && b.conc()) {
                if (w == 32) { float x = bitsf(a.c), y = bitsf(b.c), r = op == Instruction::FAdd ? x + y : op == Instruction::FSub ? x - y : op == Instruction::FMul ? x * y : op == Instruction::FDiv ? x / y : fmodf(x, y); return VFB(fbits(r), 32); }
                double x = bitsd(a.c), y = bitsd(b.c), r = op == Instruction::FAdd ? x + y : op == Instruction::FSub ? x - y : op == Instruction::FMul ? x * y : op == Instruction::FDiv ? x / y : fmod(x, y); return VFB(dbits(r), 64);
            }
            Op o = op == Instruction::FAdd ? Op::FAdd : op == Instruction::FSub ? Op::FSub : op == Instruction::FMul ? Op::FMul : Op::FDiv;
            if (op == Instruction::FRem) throw Inconclusive("frem in fp mode");
            E x = EX(a), y = EX(b); if ((o == Op::FAdd || o == Op::FMul) && x->id > y->id) std::swap(x, y);
            return VE(mkraw(o, true, w, 0, {x, y}), w, true);
        }
        // real mode
        bool ac = a.conc(), bc = b.conc();
        if ((ac && !fin(a)) || (bc && !fin(b))) {
            double x, y;
            if (ac) x = fval(a.c, a.w); if (bc) y = fval(b.c, b.w);
            if ((ac && std::isnan(x)) || (bc && std::isnan(y))) return VF(NAN, w);
            // a symbolic operand is finite: only its sign matters
            if (op == Instruction::FMul || op == Instruction::FDiv) { if (!ac) x = signof(S, a); if (!bc) y = signof(S, b); }
            else { if (!ac) x = 0; if (!bc) y = 0; }
            double r = op == Instruction::FAdd ? x + y : op == Instruction::FSub ? x - y : op == Instruction::FMul ? x * y : x / y;
            return VF(r, w);
        }
        if (op == Instruction::FRem) {
            if (ac && bc) return VF(fmod(fval(a.c, w), fval(b.c, w)), w);
            return VE(mkraw(Op::FFn, true, 64, FN_FMOD, {EX(a), EX(b)}), w, true);
        }
        if (ac && bc) {
            double x = fval(a.c, w), y = fval(b.c, w);
            if (op == Instruction::FDiv && y == 0) return VF(x / y, w);
            mpq_class p(x), q(y), r = op == Instruction::FAdd ? mpq_class(p + q) : op == Instruction::FSub ? mpq_class(p - q) : op == Instruction::FMul ? mpq_class(p * q) : mpq_class(p / q);
            return fconst(r, w);
        }
        if (a.e && b.e && a.e->op == Op::RConst && b.e->op == Op::RConst) {
            mpq_class p = *a.e->q, q = *b.e->q; if (q != 0 || op != Instruction::FDiv) return fconst(op == Instruction::FAdd ? mpq_class(p + q) : op == Instruction::FSub ? mpq_class(p - q) : op == Instruction::FMul ? mpq_class(p * q) : mpq_class(p / q), w);
        }
        switch (op) {
            case Instruction::FAdd: if (iszero(a)) { Val v = b; return v; } if (iszero(b)) return a; break;
            case Instruction::FSub: if (iszero(b)) return a; if (iszero(a)) return fneg(b); if (a.e && a.e == b.e) return VF(0, w); break;
            case Instruction::FMul: if (iszero(a) || iszero(b)) return VF(0, w); if (isone(a)) return b; if (isone(b)) return a;
                if (ac && fval(a.c, w) == -1) return fneg(b); if (bc && fval(b.c, w) == -1) return fneg(a); break;
            case Instruction::FDiv: {
                if (isone(b)) return a;
                if (!bc) {
                    if (decide(S, fcmpE(Op::FEq, b.e, mkq(0)))) { int s = signof(S, a); return VF(s == 0 ? NAN : s > 0 ? INFINITY : -INFINITY, w); }
                    if (iszero(a)) return VF(0, w);
                    if (a.e == b.e) return VF(1, w);
                } else if (iszero(b)) { int s = signof(S, a); bool nz = std::signbit(fval(b.c, w)); return VF(s == 0 ? NAN : (s > 0) != nz ? INFINITY : -INFINITY, w); }
                else return fbin(S, Instruction::FMul, a, fconst(mpq_class(1) / mpq_class(fval(b.c, w)), w));
                break;
            }
        }
        E x = EX(a), y = EX(b);
        if (x->op == Op::RConst && y->op == Op::RConst && op != Instruction::FDiv) { mpq_class p = *x->q, q = *y->q; return fconst(op == Instruction::FAdd ? mpq_class(p + q) : op == Instruction::FSub ? mpq_class(p - q) : mpq_class(p * q), w); }
        if ((op == Instruction::FAdd || op == Instruction::FMul) && x->id > y->id) std::swap(x, y);
        Op o = op == Instruction::FAdd ? Op::FAdd : op == Instruction::FSub ? Op::FSub : op == Instruction::FMul ? Op::FMul : Op::FDiv;
        return VE(mkraw(o, true, 64, 0, {x, y}), w, true);
    }
    Val fsqrt(State& S, const Val& a) {
        if (isundef(a)) return a;
        if (a.conc()) {
            double d = fval(a.c, a.w);
            if (g_fpmode || !std::isfinite(d) || d < 0) return a.w == 32 ? VFB(fbits(std::sqrt((float)d)), 32) : VF(std::sqrt(d), a.w);
            mpq_class q(d); if (mpz_perfect_square_p(q.get_num().get_mpz_t()) && mpz_perfect_square_p(q.get_den().get_mpz_t())) return fconst(mpq_class(sqrt(q.get_num()), sqrt(q.get_den())), a.w);
        }
        E x = EX(a);
        if (g_fpmode) return VE(mkraw(Op::FSqrt, true, a.w, 0, {x}), a.w, true);
        if (x->op == Op::RConst) { if (*x->q < 0) return VF(NAN, a.w); mpq_class q = *x->q; if (mpz_perfect_square_p(q.get_num().get_mpz_t()) && mpz_perfect_square_p(q.get_den().get_mpz_t())) return fconst(mpq_class(sqrt(q.get_num()), sqrt(q.get_den())), a.w); }
        else if (decide(S, fcmpE(Op::FLt, x, mkq(0)))) return VF(NAN, a.w);
        E x0 = x; x = canon(x);
        if (x != x0 && x->op == Op::RConst) return fsqrt(S, fconst(*x->q, a.w));
        // perfect squares: monomials with even exponents and multiples of a declared square
        try {
            size_t sv = g_polylimit; g_polylimit = 2000; struct G { size_t s; ~G() { g_polylimit = s; } } g{sv};
            const Frac f = sol.alg.frac(x); auto psq = [](const mpq_class& c) { return c >= 0 && mpz_perfect_square_p(c.get_num().get_mpz_t()) && mpz_perfect_square_p(c.get_den().get_mpz_t()); };
            auto rt = [](const mpq_class& c) { return mpq_class(sqrt(c.get_num()), sqrt(c.get_den())); };
            bool evend = true; for (auto& d : f.d) if (d.second & 1) evend = false;
            if (evend && f.d.size() <= 2) {
                Val r; bool ok = false;
                if (f.n.t.size() == 1 && psq(f.n.t.begin()->second)) {
                    bool ev = true; for (auto& m : f.n.t.begin()->first) if (m.second & 1) ev = false;
                    if (ev) { r = fconst(rt(f.n.t.begin()->second), a.w); for (auto& m : f.n.t.begin()->first) for (u32 i = 0; i < m.second / 2; i++) r = fbin(S, Instruction::FMul, r, fabsv(S, VE(sol.atom2e(m.first), a.w, true))); ok = true; }
                } else if (f.n.t.size() < 200) for (E v : leading) {
                    u32 id = sol.alg.eatom(v); const Frac& q = sol.alg.atoms[id].sq; if (!q.d.empty() || q.n.t.size() != f.n.t.size()) continue;
                    mpq_class k = f.n.t.rbegin()->second / q.n.t.rbegin()->second; if (!psq(k)) continue;
                    if (padd(f.n, pscale(q.n, k), -1).zero()) { r = fbin(S, Instruction::FMul, fconst(rt(k), a.w), fabsv(S, VE(v, a.w, true))); ok = true; break; }
                }
                if (ok) { for (auto& d : f.d) for (u32 i = 0; i < d.second / 2; i++) r = fbin(S, Instruction::FDiv, r, fabsv(S, VE(sol.poly2e(sol.alg.factors[d.first]), a.w, true))); return r; }
            }
        } catch (PolyTooBig&) {}
        return VE(mkraw(Op::FSqrt, true, 64, 0, {x}), a.w, true);
    }
    Val fabsv(State& S, const Val& a) {
        if (isundef(a)) return a;
        if (a.conc()) return VFB(a.c & (a.w == 32 ? 0x7fffffffull : 0x7fffffffffffffffull), a.w);
        if (g_fpmode) return VE(mkraw(Op::FAbs, true, a.w, 0, {a.e}), a.w, true);
        if (a.e->op == Op::RConst) return fconst(abs(*a.e->q), a.w);
        if (nonneg(a.e)) return a;
        if (noforkabs) return VE(mkraw(Op::Ite, true, 64, 0, {fcmpE(Op::FLt, a.e, mkq(0)), EX(fneg(a)), a.e}), a.w, true);
        return decide(S, fcmpE(Op::FLt, a.e, mkq(0))) ? fneg(a) : a;
    }
    bool noforkabs = false;
    Val ffn(State& S, u32 fn, std::vector<Val> a) {
        unsigned w = a[0].w;
        for (auto& x : a) if (isundef(x)) { Val v; v.w = w; v.f = true; v.e = mkundef(w, true); return v; }
        bool c = true; for (auto& x : a) if (!x.conc()) c = false;
        auto cv = [&](int i) { return fval(a[i].c, a[i].w); };
        if (c) {
            double r = 0; double x = cv(0);
            switch (fn) {
                case FN_SIN: r = sin(x); break; case FN_COS: r = cos(x); break; case FN_TAN: r = tan(x); break; case FN_ASIN: r = asin(x); break; case FN_ACOS: r = acos(x); break;
                case FN_ATAN: r = atan(x); break; case FN_ATAN2: r = atan2(x, cv(1)); break; case FN_EXP: r = exp(x); break; case FN_LOG: r = log(x); break; case FN_POW: r = pow(x, cv(1)); break; case FN_FMOD: r = fmod(x, cv(1)); break;
            }
            return VF(r, w);
        }
        if (fn == FN_POW && a[1].conc()) {
            double p = cv(1);
            if (p == 2) return fbin(S, Instruction::FMul, a[0], a[0]);
            if (p == 1) return a[0];
            if (p == 0) return VF(1, w);
            if (p == 3) return fbin(S, Instruction::FMul, fbin(S, Instruction::FMul, a[0], a[0]), a[0]);
            if (p == 4) { Val s = fbin(S, Instruction::FMul, a[0], a[0]); return fbin(S, Instruction::FMul, s, s); }
            if (p == 0.5) return fsqrt(S, a[0]);
            if (p == -1) return fbin(S, Instruction::FDiv, VF(1, w), a[0]);
        }
        if (g_fpmode) throw Inconclusive("transcendental function in fp mode");
        for (auto& x : a) if (x.conc() && !fin(x)) throw Inconclusive("non-finite argument of a transcendental function");
        for (auto& v : a) if (v.e) v = VE(canon(v.e), v.w, true);
        for (auto& v : a) if (v.conc()) { bool all = true; for (auto& u : a) if (!u.conc()) all = false; if (all) return ffn(S, fn, a); }
        E x = EX(a[0]);
        if ((fn == FN_SIN || fn == FN_COS) && x->op != Op::FFn) { E nx = canon(EX(fneg(VE(x, w, true)))); if (nx->op == Op::FFn) { Val r = ffn(S, fn, {VE(nx, w, true)}); return fn == FN_SIN ? fneg(r) : r; } }
        // inverse compositions
        if (x->op == Op::FFn && x->c == FN_ACOS) { E z = x->k[0]; if (fn == FN_COS) return VE(z, w, true); if (fn == FN_SIN) return fsqrt(S, fbin(S, Instruction::FSub, VF(1, 64), fbin(S, Instruction::FMul, VE(z, 64, true), VE(z, 64, true)))); }
        if (x->op == Op::FFn && x->c == FN_ASIN) { E z = x->k[0]; if (fn == FN_SIN) return VE(z, w, true); }
        if (x->op == Op::FFn && x->c == FN_ATAN2 && (fn == FN_COS || fn == FN_SIN)) {
            Val y = VE(x->k[0], 64, true), xx = VE(x->k[1], 64, true);
            Val n2 = fbin(S, Instruction::FAdd, fbin(S, Instruction::FMul, y, y), fbin(S, Instruction::FMul, xx, xx)); Val n = fsqrt(S, n2);
            Val r = fbin(S, Instruction::FDiv, fn == FN_COS ? xx : y, n); r.w = w; return r;
        }
        if (fn == FN_ASIN || fn == FN_ACOS) {
            if (decide(S, fcmpE(Op::FLt, mkq(1), x)) || decide(S, fcmpE(Op::FLt, x, mkq(-1)))) return VF(NAN, w);
        }
        std::vector<E> k; for (auto& v : a) k.push_back(EX(v));
        return VE(mkraw(Op::FFn, true, 64, fn, k), w, true);
    }
    // rounding of a real to an integer (0 floor, 1 ceil, 2 trunc, 3 nearest-even, 4 nearest-away)
    bool integral(E e) {
        switch (e->op) {
            case Op::SIToF: case Op::UIToF: return true;
            case Op::RConst: return e->q->get_den() == 1;
            case Op::FAdd: case Op::FSub: case Op::FMul: return integral(e->k[0]) && integral(e->k[1]);
            case Op::FNeg: return integral(e->k[0]);
            case Op::Ite: return integral(e->k[1]) && integral(e->k[2]);
            default: return false;
        }
    }
    E roundbv(State& S, E x, int mode, unsigned w, bool sgn) {
        // recover an integer expression
        if ((x->op == Op::SIToF || x->op == Op::UIToF)) { E b = x->k[0]; if (b->w <= w) return mk_ext(x->op == Op::SIToF, b, w); return mk_extract(b, 0, w); }
        if (x->op == Op::RConst) { mpq_class q = *x->q; mpz_class z; mpq_class h = q + mpq_class(1, 2);
            auto fl = [](const mpq_class& v) { mpz_class r; mpz_fdiv_q(r.get_mpz_t(), v.get_num_mpz_t(), v.get_den_mpz_t()); return r; };
            if (mode == 0) z = fl(q); else if (mode == 1) z = -fl(-q); else if (mode == 2) z = q >= 0 ? fl(q) : mpz_class(-fl(-q));
            else { z = fl(h); if (h.get_den() == 1) { if (mode == 3) { if (mpz_odd_p(z.get_mpz_t())) z -= 1; } else if (q < 0) z -= 1; } }
            return mkc((u128)(i128)z.get_si(), w); }
        std::string key = "!rnd" + std::to_string(mode) + "_" + std::to_string(w) + (sgn ? "s" : "u") + "_" + std::to_string(x->id);
        E v = mkvar(key, w, false);
        if (!S.known.count(mkvar(key + "d", 1, false))) {
            S.known[mkvar(key + "d", 1, false)] = true;
            unsigned bw = std::min(w, 40u);
            if (sgn) set_var_range(v, -((i128)1 << (bw - 1)), ((i128)1 << (bw - 1)) - 1, true); else set_var_range(v, 0, ((i128)1 << bw) - 1, false);
            E t = mk_itof(v, sgn, 64); E one = mkq(1), half = mkq(mpq_class(1, 2)), zero = mkq(0);
            auto add = [&](E a, E b) { return mkraw(Op::FAdd, true, 64, 0, {a, b}); };
            auto sub = [&](E a, E b) { return mkraw(Op::FSub, true, 64, 0, {a, b}); };
            auto le = [&](E a, E b) { return fcmpE(Op::FLe, a, b); }; auto lt = [&](E a, E b) { return fcmpE(Op::FLt, a, b); };
            E fl = mk_and(le(t, x), lt(x, add(t, one))), ce = mk_and(le(x, t), lt(sub(t, one), x));
            if (mode == 0) S.pc.push_back(fl);
            else if (mode == 1) S.pc.push_back(ce);
            else if (mode == 2) { S.pc.push_back(mk_ite(le(zero, x), fl, ce)); }
            else { E d = sub(x, t); E in = mk_and(lt(mkq(mpq_class(-1, 2)), d), lt(d, half)); E tie = mk_or(fcmpE(Op::FEq, d, half), fcmpE(Op::FEq, d, mkq(mpq_class(-1, 2))));
                E even = mode == 3 ? mk_cmp(Op::Eq, mk_extract(v, 0, 1), mkfalse()) : mk_ite(le(zero, x), fcmpE(Op::FEq, d, mkq(mpq_class(-1, 2))), fcmpE(Op::FEq, d, half));
                S.pc.push_back(mk_or(in, mk_and(tie, even))); }
        }
        return v;
    }
    Val frint(State& S, const Val& a, int mode) {
        if (isundef(a)) return a;
        if (a.conc()) { double d = fval(a.c, a.w); double r = mode == 0 ? floor(d) : mode == 1 ? ceil(d) : mode == 2 ? trunc(d) : mode == 3 ? nearbyint(d) : round(d); return VF(r, a.w); }
        if (g_fpmode) return VE(mkraw(Op::FRint, true, a.w, mode, {a.e}), a.w, true);
        if (integral(a.e)) return a;
        return VE(mk_itof(roundbv(S, a.e, mode, 64, true), true, 64), a.w, true);
    }
    Val ftoi(State& S, const Val& a, unsigned w, bool sgn, int mode) {
        if (isundef(a)) { Val v; v.w = w; v.e = mkundef(w, false); return v; }
        if (a.conc()) {
            double d = fval(a.c, a.w); if (!std::isfinite(d)) { Val v; v.w = w; v.e = mkundef(w, false); return v; }
            d = mode == 2 ? trunc(d) : mode == 3 ? nearbyint(d) : mode == 0 ? floor(d) : mode == 1 ? ceil(d) : round(d);
            double lim = std::ldexp(1.0, sgn ? w - 1 : w);
            if (d >= lim || d < (sgn ? -lim : 0)) { if (mode == 2) { Val v; v.w = w; v.e = mkundef(w, false); return v; } return VI(sgn ? 1ull << (w - 1) : ~0ull, w); }
            return VI(sgn ? (u64)(i64)d : (u64)d, w);
        }
        if (g_fpmode) { if (mode != 2) { Val r = frint(S, a, mode); return ftoi(S, r, w, sgn, 2); } return VE(mkraw(sgn ? Op::FToSI : Op::FToUI, false, w, 0, {a.e}), w, false); }
        return VE(roundbv(S, a.e, mode, w, sgn), w, false);
    }
    Val fcmp(State& S, CmpInst::Predicate p, const Val& a, const Val& b) {
        if (isundef(a) || isundef(b)) { Val v; v.w = 1; v.e = mkundef(1, false); return v; }
        if (p == CmpInst::FCMP_TRUE) return VI(1, 1);
        if (p == CmpInst::FCMP_FALSE) return VI(0, 1);
        bool unord = p & 8;
        if (a.conc() && b.conc()) {
            double x = fval(a.c, a.w), y = fval(b.c, b.w); bool un = std::isnan(x) || std::isnan(y);
            if (un) return VI(unord, 1);
            return VI(((p & 1) && x == y) || ((p & 2) && x > y) || ((p & 4) && x < y), 1);
        }
        if (!g_fpmode) {
            for (int t = 0; t < 2; t++) {
                const Val &q = t ? b : a;
                if (q.conc() && !fin(q)) {
                    double d = fval(q.c, q.w); if (std::isnan(d)) return VI(unord, 1);
                    double x = t ? 0 : d, y = t ? d : 0; return VI(((p & 1) && x == y) || ((p & 2) && x > y) || ((p & 4) && x < y), 1);
                }
            }
            E x = EX(a), y = EX(b);
            switch (p & 7) {
                case 0: return VI(0, 1);  // uno: a real is never NaN
                case 7: return VI(1, 1);
                case 1: return VE(fcmpE(Op::FEq, x, y), 1, false);
                case 6: return VE(mk_not(fcmpE(Op::FEq, x, y)), 1, false);
                case 2: return VE(fcmpE(Op::FLt, y, x), 1, false);
                case 3: return VE(mk_not(fcmpE(Op::FLt, x, y)), 1, false);
                case 4: return VE(fcmpE(Op::FLt, x, y), 1, false);
                case 5: return VE(mk_not(fcmpE(Op::FLt, y, x)), 1, false);
            }
        }
        E x = EX(a), y = EX(b); E r;
        E uno = mkraw(Op::FUno, false, 1, 0, {x, y});
        auto lt = [&](E p, E q) { return mkraw(Op::FLt, false, 1, 0, {p, q}); }; auto le = [&](E p, E q) { return mkraw(Op::FLe, false, 1, 0, {p, q}); };
        E eq = mkraw(Op::FEq, false, 1, 0, {x, y});
        switch (p & 7) {
            case 0: r = mkfalse(); break; case 1: r = eq; break; case 2: r = lt(y, x); break; case 3: r = le(y, x); break;
            case 4: r = lt(x, y); break; case 5: r = le(x, y); break; case 6: r = mk_and(mk_not(eq), mk_not(uno)); break; default: r = mk_not(uno); break;
        }
        if (unord) r = mk_or(r, uno);
        return VE(r, 1, false);
    }
    // ---------- integer ----------
    Val ibin(State& S, unsigned op, const Val& a, const Val& b) {
        unsigned w = a.w;
        if (a.conc() && b.conc()) {
            u64 x = a.c, y = b.c; i64 sx = (i64)sext128(x, w), sy = (i64)sext128(y, w);
            switch (op) {
                case Instruction::Add: return VI(x + y, w); case Instruction::Sub: return VI(x - y, w); case Instruction::Mul: return VI(x * y, w);
                case Instruction::UDiv: if (!y) die(S, "arith", "integer division by zero"); return VI(x / y, w);
                case Instruction::SDiv: if (!y) die(S, "arith", "integer division by zero"); return VI((u64)(i64)((i128)sx / sy), w);
                case Instruction::URem: if (!y) die(S, "arith", "integer division by zero"); return VI(x % y, w);
                case Instruction::SRem: if (!y) die(S, "arith", "integer division by zero"); return VI((u64)(i64)((i128)sx % sy), w);
                case Instruction::And: return VI(x & y, w); case Instruction::Or: return VI(x | y, w); case Instruction::Xor: return VI(x ^ y, w);
                case Instruction::Shl: return VI(y >= w ? 0 : x << y, w); case Instruction::LShr: return VI(y >= w ? 0 : x >> y, w); case Instruction::AShr: return VI(y >= w ? (sx < 0 ? -1 : 0) : (u64)(sx >> y), w);
            }
        }
        E x = EX(a), y = EX(b);
        static const std::map<unsigned, Op> m = {{Instruction::Add, Op::Add}, {Instruction::Sub, Op::Sub}, {Instruction::Mul, Op::Mul}, {Instruction::UDiv, Op::UDiv}, {Instruction::SDiv, Op::SDiv}, {Instruction::URem, Op::URem}, {Instruction::SRem, Op::SRem}, {Instruction::And, Op::And}, {Instruction::Or, Op::Or}, {Instruction::Xor, Op::Xor}, {Instruction::Shl, Op::Shl}, {Instruction::LShr, Op::LShr}, {Instruction::AShr, Op::AShr}};
        Op o = m.at(op);
        if (o == Op::UDiv || o == Op::SDiv || o == Op::URem || o == Op::SRem) {
            if (!x->undef && !y->undef && !isc(y)) if (decide(S, mk_cmp(Op::Eq, y, mkc(0, w)))) die(S, "arith", "integer division by zero");
        }
        // sign-bit manipulation of a float in real mode
        if (!g_fpmode && x->op == Op::F2I && isc(y)) {
            u128 sb = (u128)1 << (w - 1);
            if (o == Op::Xor && y->c == sb) { Val f = fneg(VE(x->k[0], w, true)); return VE(f.conc() ? mkc(f.c, w) : f2i(f.e, w), w, false); }
            if (o == Op::And && y->c == (maskw(w) ^ sb)) { Val f = fabsv(S, VE(x->k[0], w, true)); return VE(f.conc() ? mkc(f.c, w) : f2i(f.e, w), w, false); }
        }
        return VE(mk_bin(o, x, y), w, false);
    }
    Val icmp(CmpInst::Predicate p, const Val& a, const Val& b) {
        unsigned w = a.w;
        if (a.conc() && b.conc()) {
            u64 x = a.c, y = b.c; i64 sx = (i64)sext128(x, w), sy = (i64)sext128(y, w); bool r = false;
            switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break; case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break; default: break; }
            return VI(r, 1);
        }
        E x = EX(a), y = EX(b), r;
        switch (p) {
            case CmpInst::ICMP_EQ: r = mk_cmp(Op::Eq, x, y); break; case CmpInst::ICMP_NE: r = mk_not(mk_cmp(Op::Eq, x, y)); break;
            case CmpInst::ICMP_UGT: r = mk_cmp(Op::Ult, y, x); break; case CmpInst::ICMP_UGE: r = mk_cmp(Op::Ule, y, x); break;
            case CmpInst::ICMP_ULT: r = mk_cmp(Op::Ult, x, y); break; case CmpInst::ICMP_ULE: r = mk_cmp(Op::Ule, x, y); break;
            case CmpInst::ICMP_SGT: r = mk_cmp(Op::Slt, y, x); break; case CmpInst::ICMP_SGE: r = mk_cmp(Op::Sle, y, x); break;
            case CmpInst::ICMP_SLT: r = mk_cmp(Op::Slt, x, y); break; default: r = mk_cmp(Op::Sle, x, y); break;
        }
        return VE(r, 1, false);
    }
#include "exec.inc"
};

struct Args { int argc; char** argv; int rc; };
static int real_main(int argc, char** argv);
static void* thr(void* p) { Args* a = (Args*)p; a->rc = real_main(a->argc, a->argv); return nullptr; }
int main(int argc, char** argv) {
    Args a{argc, argv, 0}; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1ull << 30);
    pthread_t t; pthread_create(&t, &at, thr, &a); pthread_join(t, nullptr);
    fflush(stdout); fflush(stderr); _exit(a.rc);
}
static std::string js(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }

static int real_main(int argc, char** argv) {
    Engine G; std::string bc, entry, out, filter; 
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--entry") entry = argv[++i]; else if (a == "--out") out = argv[++i]; else if (a == "--fp") g_fpmode = true;
        else if (a == "--time") G.maxtime = atof(argv[++i]); else if (a == "--paths") G.maxpaths = atoll(argv[++i]); else if (a == "--insts") G.maxinsts = atoll(argv[++i]);
        else if (a == "--margin") G.margin = atof(argv[++i]); else if (a == "-v") G.verbose = true; else if (a == "--dump") { G.sol.dumpdir = argv[++i]; G.sol.dumpmax = 400; }
        else if (a == "--timeout") G.sol.default_timeout = atoi(argv[++i]); else if (a == "--all") G.stop_first = false; else if (a == "--noforkabs") G.noforkabs = true; else if (a == "--enum") G.maxenum = atoi(argv[++i]); else if (a == "--noforksel") G.noforksel = true; else if (a == "--confirm") { G.confirm_ms = atoi(argv[++i]); G.confirm_budget = atof(argv[++i]); }
        else bc = a;
    }
    SMDiagnostic err; G.M = parseIRFile(bc, err, G.C);
    if (!G.M) { std::cerr << "cannot parse " << bc << ": " << err.getMessage().str() << "\n"; return 3; }
    G.DL = &G.M->getDataLayout();
    const Function* F = G.M->getFunction(entry);
    if (!F || F->isDeclaration()) { std::cerr << "no entry " << entry << "\n"; return 3; }
    std::string status = "ok", err_s;
    try { G.run(F); } catch (std::exception& e) { status = "error"; err_s = e.what(); }
    if (!G.incon.empty() && status == "ok") status = "inconclusive";
    if (!G.fails.empty()) status = "fail";
    std::ostringstream o;
    o << "{\n \"entry\": " << js(entry) << ",\n \"status\": " << js(status) << ",\n \"error\": " << js(err_s) << ",\n \"fpmode\": " << (g_fpmode ? "true" : "false")
      << ",\n \"paths\": " << G.paths << ",\n \"forks\": " << G.forks << ",\n \"killed\": " << G.killed << ",\n \"instructions\": " << G.insts
      << ",\n \"queries\": " << G.sol.st.queries << ",\n \"queries_sat\": " << G.sol.st.sat << ",\n \"queries_unsat\": " << G.sol.st.unsat << ",\n \"queries_unknown\": " << G.sol.st.unknown << ",\n \"queries_cached\": " << G.sol.st.cached
      << ",\n \"assertions\": " << G.checkq << ",\n \"assert_trivial\": " << G.checktriv << ",\n \"assert_raw_unsat\": " << G.checkraw << ",\n \"assert_normalised_unsat\": " << G.checkpoly << ",\n \"assert_normalised_confirmed_raw\": " << G.confirmed << ",\n \"assert_pathcond_unsat\": " << G.checkfull
      << ",\n \"solver_s\": " << G.sol.st.time << ",\n \"max_query_s\": " << G.sol.st.maxtime << ",\n \"wall_s\": " << now() - G.tstart;
    o << ",\n \"covers\": {"; bool f = true; for (auto& c : G.covers) { o << (f ? "" : ", ") << js(c.first) << ": " << c.second; f = false; } o << "}";
    o << ",\n \"checks\": {"; f = true; for (auto& c : G.checks) { o << (f ? "" : ", ") << js(c.first) << ": " << c.second; f = false; } o << "}";
    o << ",\n \"functions\": ["; f = true; for (auto* v : G.visited) { std::string d = demangle(v->getName().str()); o << (f ? "" : ", ") << js(d); f = false; } o << "]";
    o << ",\n \"modelled\": ["; f = true; for (auto& v : G.stubs) { o << (f ? "" : ", ") << js(demangle(v)); f = false; } o << "]";
    o << ",\n \"inconclusive\": ["; f = true; for (size_t i = 0; i < G.incon.size() && i < 20; i++) { o << (f ? "" : ", ") << js(G.incon[i]); f = false; } o << "]";
    o << ",\n \"witnesses\": ["; f = true;
    for (auto& x : G.wit) { o << (f ? "" : ", ") << "{\"label\": " << js(x.msg) << ", \"inputs\": ["; f = false; bool g = true; for (auto& p : x.inputs) { o << (g ? "" : ", ") << "[" << js(p.first) << ", " << js(p.second) << "]"; g = false; } o << "]}"; }
    o << "]";
    o << ",\n \"failures\": ["; f = true;
    for (auto& x : G.fails) {
        o << (f ? "" : ", ") << "{\"kind\": " << js(x.kind) << ", \"msg\": " << js(x.msg) << ", \"loc\": " << js(x.loc) << ", \"stack\": " << js(x.stack) << ", \"model\": " << (x.model ? "true" : "false") << ", \"inputs\": ["; f = false; bool g = true;
        for (auto& p : x.inputs) { o << (g ? "" : ", ") << "[" << js(p.first) << ", " << js(p.second) << "]"; g = false; }
        o << "]}";
    }
    o << "]\n}\n";
    if (out.empty()) std::cout << o.str(); else { std::ofstream of(out); of << o.str(); }
    return status == "ok" ? 0 : status == "fail" ? 1 : 2;
}
