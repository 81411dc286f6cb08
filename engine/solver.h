// Translation of expressions to Z3 and query management.
#pragma once
#include <sys/prctl.h>
#include <sys/wait.h>
#include <poll.h>
#include <signal.h>
#include <unistd.h>
#include <sstream>
#include "expr.h"
#include "poly.h"
#include <z3++.h>
#include <chrono>
#include <algorithm>
#include <iostream>
#include <fstream>

enum class Res { Sat, Unsat, Unknown };

struct Model { std::map<std::string, std::string> v; std::map<std::string, double> d; };

struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cached = 0, trivial = 0; double time = 0; double maxtime = 0; };

struct Solver {
    z3::context ctx;
    Algebra alg;
    SolverStats st;
    unsigned default_timeout = 5000;
    std::string dumpdir, dumpname; u64 dumpcount = 0; u64 dumpmax = 0;
    struct Node { z3::expr e; };
    std::unordered_map<E, z3::expr> memo[3];  // 0: bv preferred, 1: int-as-real relaxed, 2: int
    std::unordered_map<E, std::vector<u32>> varsets;
    std::unordered_map<u32, E> varbyid;

    const std::vector<u32>& vars(E e) {
        auto it = varsets.find(e); if (it != varsets.end()) return it->second;
        std::vector<u32> r;
        if (e->op == Op::Var) { r.push_back(e->id); varbyid[e->id] = e; }
        else for (E k : e->k) { auto& v = vars(k); std::vector<u32> o; std::set_union(r.begin(), r.end(), v.begin(), v.end(), std::back_inserter(o)); r.swap(o); }
        return varsets[e] = r;
    }

    z3::expr num(const mpq_class& q) { return ctx.real_val(q.get_str().c_str()); }
    z3::sort fsort(unsigned w) { return w == 32 ? z3::sort(ctx, Z3_mk_fpa_sort_32(ctx)) : z3::sort(ctx, Z3_mk_fpa_sort_64(ctx)); }
    z3::expr rne() { return z3::expr(ctx, Z3_mk_fpa_rne(ctx)); }
    z3::expr ex(Z3_ast a) { return z3::expr(ctx, a); }

    // side constraints of the current query
    std::vector<z3::expr> side; std::set<std::string> sidekeys;
    void addside(const std::string& k, const z3::expr& e) { if (sidekeys.insert(k).second) side.push_back(e); }

    int mode = 0;
    bool convertible(E f) {
        switch (f->op) {
            case Op::RConst: return true;
            case Op::SIToF: case Op::UIToF: return f->k[0]->op == Op::Var;
            case Op::FAdd: case Op::FSub: case Op::FMul: return convertible(f->k[0]) && convertible(f->k[1]);
            case Op::Ite: return convertible(f->k[1]) && convertible(f->k[2]);
            default: return false;
        }
    }
    static std::string vname(E v) { return *v->name; }

    z3::expr intvar(E v, bool sgn) {
        std::string n = vname(v) + (sgn ? "#s" : "#u");
        z3::expr i = mode == 2 ? z3::to_real(ctx.int_const(n.c_str())) : ctx.real_const(n.c_str());
        Rng r; bool ok = sgn ? srange(v, r) : urange(v, r);
        if (ok) { addside(n + "r", i >= ctx.real_val(std::to_string((long long)r.lo).c_str()) && i <= ctx.real_val(std::to_string((long long)r.hi).c_str())); }
        usedint.insert({v, sgn});
        return i;
    }
    std::set<std::pair<E, bool>> usedint; std::set<E> usedbv;

    z3::expr tofrac(const Frac& f) {
        z3::expr n = topoly(f.n);
        for (auto& d : f.d) for (u32 i = 0; i < d.second; i++) n = n / topoly(alg.factors[d.first]);
        return n;
    }
    z3::expr topoly(const Poly& p) {
        if (p.zero()) return ctx.real_val(0);
        z3::expr_vector sum(ctx);
        for (auto& t : p.t) {
            z3::expr m = num(t.second);
            for (auto& x : t.first) for (u32 i = 0; i < x.second; i++) m = m * atomz(x.first);
            sum.push_back(m);
        }
        z3::expr r = sum[0]; for (unsigned i = 1; i < sum.size(); i++) r = r + sum[i];
        return r;
    }
    z3::expr atomz(u32 id) {
        Atom a = alg.atoms[id];
        if (a.kind == 0) return tr(a.e);
        std::string n = "at!" + std::to_string(id);
        z3::expr v = ctx.real_const(n.c_str());
        if (sidekeys.insert(n).second) {
            if (a.kind == 1) { z3::expr x = tofrac(a.args[0]); side.push_back(v >= 0); side.push_back(v * v == x); }
            else if (a.fn == FN_SIN || a.fn == FN_COS) {
                u32 s = a.fn == FN_SIN ? id : id + 1, c = a.fn == FN_SIN ? id - 1 : id;
                sidekeys.insert("at!" + std::to_string(s)); sidekeys.insert("at!" + std::to_string(c));
                z3::expr sv = ctx.real_const(("at!" + std::to_string(s)).c_str()), cv = ctx.real_const(("at!" + std::to_string(c)).c_str());
                side.push_back(sv * sv + cv * cv == 1);
                if (a.args[0].d.empty() && a.args[0].n.t.size() == 1) side.push_back(z3::implies(tofrac(a.args[0]) == 0, sv == 0 && cv == 1));
            } else if (a.fn == FN_ACOS) { side.push_back(v >= 0); side.push_back(v <= ctx.real_val("3141592654/1000000000")); }
            else if (a.fn == FN_ASIN || a.fn == FN_ATAN) { side.push_back(v >= ctx.real_val("-1570796327/1000000000")); side.push_back(v <= ctx.real_val("1570796327/1000000000")); }
            else if (a.fn == FN_ATAN2) {
                z3::expr y = tofrac(a.args[0]), x = tofrac(a.args[1]), h = ctx.real_val("1570796327/1000000000"), g = ctx.real_val("1570796326/1000000000");
                side.push_back(z3::implies(y >= 0, v >= 0)); side.push_back(z3::implies(y < 0, v < 0));
                side.push_back(z3::implies(x >= 0, v <= h && v >= -h)); side.push_back(z3::implies(x <= 0 && y >= 0 && (x < 0 || y > 0), v >= g)); side.push_back(z3::implies(x <= 0 && y < 0, v <= -g));
                side.push_back(v >= ctx.real_val("-3141592654/1000000000")); side.push_back(v <= ctx.real_val("3141592654/1000000000")); }
            else if (a.fn == FN_EXP) { side.push_back(v > 0); }
        }
        return v;
    }

    // Note: side constraints are attached to nodes and must be re-collected for every query, so the memo stores
    // the translation together with the list of side-relevant descendants implicitly by re-walking.
    z3::expr tr(E e) {
        auto& m = memo[mode];
        auto it = m.find(e);
        if (it != m.end()) { touch(e); return it->second; }
        z3::expr r = tr_(e);
        m.emplace(e, r); touched.insert(e);
        return r;
    }
    std::unordered_set<E> touched;
    void touch(E e) {  // re-emit side constraints for a memoised sub-DAG
        if (!touched.insert(e).second) return;
        switch (e->op) {
            case Op::Var: if (!e->f) usedbv.insert(e); return;
            case Op::FSqrt: case Op::FFn: if (!g_fpmode) { atom_of(e); } break;
            case Op::SIToF: case Op::UIToF: if (!g_fpmode && mode && e->k[0]->op == Op::Var) { intvar(e->k[0], e->op == Op::SIToF); return; } break;
            case Op::Eq: case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle:
                if (mode && !g_fpmode && e->k[0]->w > 1) { E a, b; if (intcmp(e, a, b)) { tr(a); tr(b); touch(a); touch(b); return; } }
                break;
            default: break;
        }
        for (E k : e->k) touch(k);
    }
    bool intcmp(E e, E& a, E& b) {
        bool s = e->op == Op::Slt || e->op == Op::Sle;
        for (int t = 0; t < 2; t++) {
            bool sg = e->op == Op::Eq ? t == 0 : s;
            a = mk_itof(e->k[0], sg, 64); b = mk_itof(e->k[1], sg, 64);
            if (convertible(a) && convertible(b)) return true;
            if (e->op != Op::Eq) break;
        }
        return false;
    }
    z3::expr atom_of(E e) {
        try {
            const Frac& f = alg.frac(e);
            if (f.d.empty() && f.n.t.size() <= 1) return topoly(f.n);
        } catch (PolyTooBig&) {}
        u32 id = alg.eatom(e);
        std::string n = "ax!" + std::to_string(id);
        z3::expr v = ctx.real_const(n.c_str());
        if (sidekeys.insert(n).second && e->op == Op::FSqrt) { z3::expr x = tr(e->k[0]); side.push_back(v >= 0); side.push_back(v * v == x); }
        return v;
    }
    z3::expr tr_(E e) {
        auto K = [&](int i) { return tr(e->k[i]); };
        switch (e->op) {
            case Op::Const:
                if (e->w == 1) return ctx.bool_val(e->c == 1);
                if (e->w <= 64) return ctx.bv_val((uint64_t)e->c, e->w);
                return z3::concat(ctx.bv_val((uint64_t)(e->c >> 64), e->w - 64), ctx.bv_val((uint64_t)e->c, 64));
            case Op::RConst: {
                if (g_fpmode) { mpq_class q = *e->q; return ex(Z3_mk_fpa_numeral_double(ctx, q.get_d(), fsort(e->w))); }
                return num(*e->q);
            }
            case Op::FConst: {
                double v = fval((u64)e->c, e->w);
                if (g_fpmode) return e->w == 32 ? ex(Z3_mk_fpa_numeral_float(ctx, bitsf((u64)e->c), fsort(32))) : ex(Z3_mk_fpa_numeral_double(ctx, v, fsort(64)));
                if (!std::isfinite(v)) throw std::runtime_error("non-finite constant in real mode query");
                return num(mpq_class(v));
            }
            case Op::Var:
                if (e->f) { if (g_fpmode) return ctx.constant(vname(e).c_str(), fsort(e->w)); return ctx.real_const(vname(e).c_str()); }
                usedbv.insert(e);
                if (e->w == 1) return ctx.bool_const(vname(e).c_str());
                return ctx.bv_const(vname(e).c_str(), e->w);
            case Op::Undef: throw std::runtime_error("undef in query");
            case Op::Add: return K(0) + K(1);
            case Op::Sub: return K(0) - K(1);
            case Op::Mul: return K(0) * K(1);
            case Op::UDiv: return z3::udiv(K(0), K(1));
            case Op::SDiv: return K(0) / K(1);
            case Op::URem: return z3::urem(K(0), K(1));
            case Op::SRem: return z3::srem(K(0), K(1));
            case Op::And: return e->w == 1 ? (K(0) && K(1)) : (K(0) & K(1));
            case Op::Or: return e->w == 1 ? (K(0) || K(1)) : (K(0) | K(1));
            case Op::Xor: if (e->w == 1) { if (istrue(e->k[1])) return !K(0); return K(0) != K(1); } return K(0) ^ K(1);
            case Op::Shl: return z3::shl(K(0), K(1));
            case Op::LShr: return z3::lshr(K(0), K(1));
            case Op::AShr: return z3::ashr(K(0), K(1));
            case Op::ZExt: { z3::expr a = bvof(e->k[0]); return z3::zext(a, e->w - e->k[0]->w); }
            case Op::SExt: { z3::expr a = bvof(e->k[0]); return z3::sext(a, e->w - e->k[0]->w); }
            case Op::Extract: { z3::expr a = bvof(e->k[0]); z3::expr r = a.extract((unsigned)e->c + e->w - 1, (unsigned)e->c); return e->w == 1 ? r == ctx.bv_val(1, 1) : r; }
            case Op::Concat: return z3::concat(bvof(e->k[0]), bvof(e->k[1]));
            case Op::Eq: case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle: {
                if (mode && !g_fpmode && e->k[0]->w > 1) {
                    E a, b;
                    if (intcmp(e, a, b)) {
                        z3::expr x = tr(a), y = tr(b);
                        if (e->op == Op::Eq) return x == y;
                        return (e->op == Op::Ult || e->op == Op::Slt) ? x < y : x <= y;
                    }
                }
                z3::expr x = K(0), y = K(1);
                if (e->op == Op::Eq) return x == y;
                x = bvof(e->k[0]); y = bvof(e->k[1]);
                if (e->op == Op::Ult) return z3::ult(x, y);
                if (e->op == Op::Ule) return z3::ule(x, y);
                if (e->op == Op::Slt) return x < y;
                return x <= y;
            }
            case Op::Ite: return z3::ite(K(0), K(1), K(2));
            case Op::FAdd: return g_fpmode ? ex(Z3_mk_fpa_add(ctx, rne(), K(0), K(1))) : K(0) + K(1);
            case Op::FSub: return g_fpmode ? ex(Z3_mk_fpa_sub(ctx, rne(), K(0), K(1))) : K(0) - K(1);
            case Op::FMul: return g_fpmode ? ex(Z3_mk_fpa_mul(ctx, rne(), K(0), K(1))) : K(0) * K(1);
            case Op::FDiv: return g_fpmode ? ex(Z3_mk_fpa_div(ctx, rne(), K(0), K(1))) : K(0) / K(1);
            case Op::FNeg: return g_fpmode ? ex(Z3_mk_fpa_neg(ctx, K(0))) : -K(0);
            case Op::FAbs: return g_fpmode ? ex(Z3_mk_fpa_abs(ctx, K(0))) : z3::ite(K(0) >= 0, K(0), -K(0));
            case Op::FSqrt: return g_fpmode ? ex(Z3_mk_fpa_sqrt(ctx, rne(), K(0))) : atom_of(e);
            case Op::FFn: if (g_fpmode) throw std::runtime_error("transcendental in fp mode"); return atom_of(e);
            case Op::FEq: return g_fpmode ? ex(Z3_mk_fpa_eq(ctx, K(0), K(1))) : K(0) == K(1);
            case Op::FLt: return g_fpmode ? ex(Z3_mk_fpa_lt(ctx, K(0), K(1))) : K(0) < K(1);
            case Op::FLe: return g_fpmode ? ex(Z3_mk_fpa_leq(ctx, K(0), K(1))) : K(0) <= K(1);
            case Op::FUno: return ex(Z3_mk_fpa_is_nan(ctx, K(0))) || ex(Z3_mk_fpa_is_nan(ctx, K(1)));
            case Op::SIToF: case Op::UIToF: {
                bool s = e->op == Op::SIToF;
                if (g_fpmode) {
                    z3::expr b = bvof(e->k[0]);
                    return s ? ex(Z3_mk_fpa_to_fp_signed(ctx, rne(), b, fsort(e->w))) : ex(Z3_mk_fpa_to_fp_unsigned(ctx, rne(), b, fsort(e->w)));
                }
                if (e->k[0]->op == Op::Var && mode) return intvar(e->k[0], s);
                return z3::to_real(ex(Z3_mk_bv2int(ctx, bvof(e->k[0]), s)));
            }
            case Op::FToSI: return ex(Z3_mk_fpa_to_sbv(ctx, z3::expr(ctx, Z3_mk_fpa_rtz(ctx)), K(0), e->w));
            case Op::FToUI: return ex(Z3_mk_fpa_to_ubv(ctx, z3::expr(ctx, Z3_mk_fpa_rtz(ctx)), K(0), e->w));
            case Op::FRint: { Z3_ast rm = e->c == 0 ? Z3_mk_fpa_rtn(ctx) : e->c == 1 ? Z3_mk_fpa_rtp(ctx) : e->c == 2 ? Z3_mk_fpa_rtz(ctx) : e->c == 3 ? Z3_mk_fpa_rne(ctx) : Z3_mk_fpa_rna(ctx); return ex(Z3_mk_fpa_round_to_integral(ctx, z3::expr(ctx, rm), K(0))); }
            case Op::FTrunc: case Op::FExt: return ex(Z3_mk_fpa_to_fp_float(ctx, rne(), K(0), fsort(e->w)));
            case Op::F2I:
                if (g_fpmode) return ex(Z3_mk_fpa_to_ieee_bv(ctx, K(0)));
                throw std::runtime_error("float bits inspected in real mode");
            case Op::I2F:
                if (g_fpmode) return ex(Z3_mk_fpa_to_fp_bv(ctx, bvof(e->k[0]), fsort(e->w)));
                throw std::runtime_error("integer bits as float in real mode");
        }
        throw std::runtime_error("untranslatable");
    }
    z3::expr bvof(E e) {
        z3::expr a = tr(e);
        if (e->w == 1 && a.is_bool()) return z3::ite(a, ctx.bv_val(1, 1), ctx.bv_val(0, 1));
        return a;
    }
    std::unordered_map<E, int> hasitof_;
    bool hasitof(E e) {
        auto it = hasitof_.find(e); if (it != hasitof_.end()) return it->second;
        bool r = (e->op == Op::SIToF || e->op == Op::UIToF);
        for (E k : e->k) if (!r) r = hasitof(k);
        hasitof_[e] = r; return r;
    }
    std::unordered_map<E, int> hasbv_;
    bool hasbv(E e) {  // any non-boolean bit-vector
        auto it = hasbv_.find(e); if (it != hasbv_.end()) return it->second;
        bool r = (!e->f && e->w > 1);
        for (E k : e->k) if (!r) r = hasbv(k);
        hasbv_[e] = r; return r;
    }

    // constraint slicing: keep constraints connected with q
    std::vector<E> slice(const std::vector<E>& pc, const std::vector<E>& q) {
        std::set<u32> vs; for (E e : q) { auto& v = vars(e); vs.insert(v.begin(), v.end()); }
        std::vector<char> in(pc.size(), 0); bool ch = true; std::vector<E> r;
        while (ch) {
            ch = false;
            for (size_t i = 0; i < pc.size(); i++) if (!in[i]) {
                auto& v = vars(pc[i]); bool hit = v.empty();
                for (u32 x : v) if (vs.count(x)) { hit = true; break; }
                if (hit) { in[i] = 1; vs.insert(v.begin(), v.end()); ch = true; }
            }
        }
        for (size_t i = 0; i < pc.size(); i++) if (in[i]) r.push_back(pc[i]);
        return r;
    }

    std::map<std::vector<u32>, std::pair<Res, int>> cache;

    // Non-linear real queries run in a child process: nlsat does not always honour its own time limit.
    z3::check_result forked(z3::solver& s, unsigned timeout, Model* model, const std::vector<E>& want) {
        int fd[2]; if (pipe(fd)) return z3::unknown;
        pid_t p = fork();
        if (p < 0) { close(fd[0]); close(fd[1]); return z3::unknown; }
        if (p == 0) {
            close(fd[0]); prctl(PR_SET_PDEATHSIG, SIGKILL);
            std::string out = "u\n";
            try {
                z3::check_result r = s.check();
                if (r == z3::unsat) out = "n\n";
                if (r == z3::sat) { out = "y\n"; if (model) { Model m; extract(s.get_model(), want, m); for (auto& x : m.v) { char b[64]; snprintf(b, 64, "%.17g", m.d[x.first]); out += x.first + "\t" + x.second + "\t" + b + "\n"; } } }
            } catch (z3::exception&) { }
            size_t o = 0; while (o < out.size()) { ssize_t k = write(fd[1], out.data() + o, out.size() - o); if (k <= 0) break; o += k; }
            _exit(0);
        }
        close(fd[1]); std::string in; char buf[65536]; auto t0 = std::chrono::steady_clock::now(); bool eof = false;
        for (;;) {
            int left = (int)timeout - (int)std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count();
            if (left <= 0) break;
            struct pollfd pf{fd[0], POLLIN, 0}; int k = poll(&pf, 1, left); if (k <= 0) { if (k < 0 && errno == EINTR) continue; break; }
            ssize_t n = read(fd[0], buf, sizeof buf); if (n <= 0) { eof = true; break; } in.append(buf, n);
        }
        kill(p, SIGKILL); waitpid(p, nullptr, 0); close(fd[0]);
        if (!eof || in.empty()) return z3::unknown;
        if (in[0] == 'n') return z3::unsat;
        if (in[0] != 'y') return z3::unknown;
        if (model) { std::istringstream is(in); std::string l; std::getline(is, l); while (std::getline(is, l)) { size_t a = l.find('\t'), b = l.find('\t', a + 1); if (b == std::string::npos) continue; std::string n = l.substr(0, a); model->v[n] = l.substr(a + 1, b - a - 1); model->d[n] = strtod(l.c_str() + b + 1, nullptr); } }
        return z3::sat;
    }
    Res solve_(const std::vector<E>& cs, int m, unsigned timeout, Model* model, const std::vector<E>& want) {
        mode = m; side.clear(); sidekeys.clear(); usedint.clear(); usedbv.clear(); touched.clear();
        std::vector<z3::expr> fs; bool anybv = false;
        for (E c : cs) { fs.push_back(tr(c)); if (!g_fpmode && hasbv(c) ) anybv = true; }
        if (m == 1) anybv = !usedbv.empty();
        if (m) for (auto& p : usedint) if (usedbv.count(p.first) && p.first->w > 1) {
            z3::expr b = ctx.bv_const(vname(p.first).c_str(), p.first->w);
            std::string n = vname(p.first) + (p.second ? "#s" : "#u");
            z3::expr i = mode == 2 ? z3::to_real(ctx.int_const(n.c_str())) : ctx.real_const(n.c_str());
            side.push_back(z3::to_real(ex(Z3_mk_bv2int(ctx, b, p.second))) == i);
        }
        if (m) for (auto& p : usedint) if (p.second && usedint.count({p.first, false})) {
            Rng r; const bool nonneg = srange(p.first, r) && r.lo >= 0;
            std::string a = vname(p.first) + "#s", b = vname(p.first) + "#u";
            z3::expr i = mode == 2 ? z3::to_real(ctx.int_const(a.c_str())) : ctx.real_const(a.c_str()), u = mode == 2 ? z3::to_real(ctx.int_const(b.c_str())) : ctx.real_const(b.c_str());
            if (nonneg) side.push_back(i == u);
            else if (p.first->w > 1) {
                z3::expr half = ctx.real_val(mpz_class(mpz_class(1) << (p.first->w - 1)).get_str().c_str()), full = ctx.real_val(mpz_class(mpz_class(1) << p.first->w).get_str().c_str());
                side.push_back(i == z3::ite(u < half, u, u - full));
            }
        }
        auto t0 = std::chrono::steady_clock::now();
        bool pure_real = !g_fpmode && !anybv && m != 2;
        z3::check_result r = z3::unknown;
        st.queries++;
        auto run = [&](z3::solver s, bool hard) {
            if (!hard) { z3::params p(ctx); p.set("timeout", timeout); s.set(p); }
            for (auto& f : fs) s.add(f);
            for (auto& f : side) s.add(f);
            if (!dumpdir.empty() && dumpcount < dumpmax) { dumpname = dumpdir + "/q" + std::to_string(dumpcount++) + ".smt2"; std::ofstream o(dumpname); o << "(set-logic ALL)\n" << s.to_smt2(); }
            z3::check_result rr;
            if (hard) rr = forked(s, timeout, model, want);
            else { try { rr = s.check(); } catch (z3::exception&) { rr = z3::unknown; } }
            if (!dumpname.empty()) { std::ofstream o(dumpname + ".ans"); o << (rr == z3::sat ? "sat" : rr == z3::unsat ? "unsat" : "unknown"); dumpname.clear(); }
            if (hard) return rr;
            if (rr == z3::sat && model) extract(s.get_model(), want, *model);
            return rr;
        };
        try {
            if (pure_real) r = run(z3::solver(ctx, "QF_NRA"), true); else r = run(z3::solver(ctx), false);
        } catch (z3::exception& x) { r = z3::unknown; }
        double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        st.time += dt; if (dt > st.maxtime) st.maxtime = dt;
        Res res = r == z3::sat ? Res::Sat : r == z3::unsat ? Res::Unsat : Res::Unknown;
        if (res == Res::Sat) st.sat++; else if (res == Res::Unsat) st.unsat++; else st.unknown++;
        return res;
    }
    void extract(z3::model md, const std::vector<E>& want, Model& out) {
        for (E v : want) {
            std::string n = vname(v);
            z3::expr c(ctx);
            if (v->f) c = g_fpmode ? ctx.constant(n.c_str(), fsort(v->w)) : ctx.real_const(n.c_str());
            else {
                bool done = false;
                if (mode) for (int s = 0; s < 2 && !done; s++) if (usedint.count({v, s == 1})) {
                    std::string nn = n + (s ? "#s" : "#u");
                    z3::expr i = mode == 2 ? ctx.int_const(nn.c_str()) : ctx.real_const(nn.c_str());
                    z3::expr val = md.eval(i, true);
                    std::string str = val.is_numeral() ? val.get_decimal_string(20) : "0";
                    double d = strtod(str.c_str(), nullptr);
                    long long iv = llround(d);
                    out.v[n] = std::to_string(iv); out.d[n] = (double)iv; done = true;
                }
                if (done) continue;
                c = v->w == 1 ? ctx.bool_const(n.c_str()) : ctx.bv_const(n.c_str(), v->w);
            }
            z3::expr val = md.eval(c, true);
            if (val.is_bool()) { out.v[n] = val.is_true() ? "1" : "0"; out.d[n] = val.is_true(); continue; }
            if (v->f && g_fpmode) {
                // bits of the float
                z3::expr b = md.eval(ex(Z3_mk_fpa_to_ieee_bv(ctx, val)), true).simplify();
                uint64_t bits = 0; b.is_numeral_u64(bits);
                double d = fval(bits, v->w); char buf[64]; snprintf(buf, 64, "%.17g", d); out.v[n] = buf; out.d[n] = d; continue;
            }
            if (v->f) {
                std::string str;
                if (val.is_algebraic()) { z3::expr lo(ctx, Z3_get_algebraic_number_lower(ctx, val, 20)); str = lo.get_decimal_string(20); }
                else str = val.get_decimal_string(25);
                if (!str.empty() && str.back() == '?') str.pop_back();
                double d = strtod(str.c_str(), nullptr); char buf[64]; snprintf(buf, 64, "%.17g", d); out.v[n] = buf; out.d[n] = d; continue;
            }
            uint64_t u = 0; if (val.is_numeral_u64(u)) { i64 s = (i64)sext128(u, v->w); Rng r; bool sg; if (get_var_range(v, r, sg) && !sg) out.v[n] = std::to_string(u); else out.v[n] = std::to_string(s); out.d[n] = (double)s; }
        }
    }
    // Decide satisfiability of the conjunction.
    Res check(const std::vector<E>& pc, const std::vector<E>& q, unsigned timeout = 0, Model* model = nullptr, const std::vector<E>& want = {}, bool doslice = true) {
        if (!timeout) timeout = default_timeout;
        std::vector<E> cs;
        for (E e : q) if (isfalse(e)) { st.trivial++; return Res::Unsat; }
        if (doslice && !model) cs = slice(pc, q); else cs = pc;
        for (E e : q) if (!istrue(e)) cs.push_back(e);
        std::vector<u32> key;
        if (!model) {
            for (E e : cs) key.push_back(e->id);
            std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
            if (key.empty()) { st.trivial++; return Res::Sat; }
            auto it = cache.find(key);
            if (it != cache.end() && (it->second.first != Res::Unknown || it->second.second >= (int)timeout)) { st.cached++; return it->second.first; }
        }
        bool itof = false; if (!g_fpmode) for (E c : cs) if (hasitof(c)) itof = true;
        Res r;
        try {
            if (itof) {
                r = solve_(cs, 1, timeout, nullptr, want);
                if (r != Res::Unsat) r = solve_(cs, 2, timeout, model, want);
            } else r = solve_(cs, 0, timeout, model, want);
        } catch (std::runtime_error& ex) {
            lasterr = ex.what(); st.unknown++; r = Res::Unknown;
        }
        if (!model) cache[key] = {r, (int)timeout};
        return r;
    }
    std::string lasterr;

    // Expression for the normalised numerator of e (e == 0 <=> numerator == 0 given non-zero denominators).
    E poly2e(const Poly& p) {
        E s = nullptr;
        for (auto& t : p.t) {
            E m = nullptr;
            for (auto& x : t.first) for (u32 i = 0; i < x.second; i++) { E a = atom2e(x.first); m = m ? mkraw(Op::FMul, true, 64, 0, {m, a}) : a; }
            E c = mkq(t.second);
            if (!m) m = c; else if (t.second != 1) m = mkraw(Op::FMul, true, 64, 0, {c, m});
            s = s ? mkraw(Op::FAdd, true, 64, 0, {s, m}) : m;
        }
        return s ? s : mkq(0);
    }
    E frac2e(const Frac& f) {
        E n = poly2e(f.n);
        for (auto& d : f.d) for (u32 i = 0; i < d.second; i++) n = mkraw(Op::FDiv, true, 64, 0, {n, poly2e(alg.factors[d.first])});
        return n;
    }
    E atom2e(u32 id) {
        Atom a = alg.atoms[id];
        if (a.kind == 0) return a.e;
        if (a.kind == 1) return mkraw(Op::FSqrt, true, 64, 0, {frac2e(a.args[0])});
        std::vector<E> k; for (auto& f : a.args) k.push_back(frac2e(f));
        return mkraw(Op::FFn, true, 64, a.fn, k);
    }
};
